"""C01: applied control is the request clipped per actuator; a warning iff something was clipped."""
from checks.common import *

BOUNDS = ('every entity class, one step; requests up to 1000x the actuator range (|u| <= 3000 and limits within 1000 for generic limits), states in the operating box, steps of 0.001 to 1000 s; '
          'infinite requests on one actuator; 130 to 270 identical requests in a row; containers list, ndarray, JAX array and dict; generic entity: 1-3 actuators, symbolic scalar or per-actuator limits')


def check_effect(ctx, kind, e, s, u, h, warn):
    c = kind.clip(ctx, u)
    want = euler_state(ctx, kind, s, c, h)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] after the step with the clipped control', got[i], want[i])
    warn_check(ctx, u, kind.ulo, kind.uhi, warn)


def warn_check(ctx, u, lo, hi, warn):
    eps = 1e-6
    outside = ctx.Or(*[ctx.Or(x < a - eps * abs(a) - 1e-9, x > b + eps * abs(b) + 1e-9) for x, a, b in zip(u, lo, hi)])
    maybe = ctx.Or(*[ctx.Or(x < a + eps * abs(a) + 1e-9, x > b - eps * abs(b) - 1e-9) for x, a, b in zip(u, lo, hi)])
    if warn:
        ctx.check(maybe, 'warning although every component is within its limits')
    else:
        ctx.check(ctx.Not(outside), 'no warning although a component is outside its limits')


def make_action(ctx, container, u, names):
    if container == 'list':
        return list(u)
    if container == 'ndarray':
        return ctx.arr(list(u))
    if container == 'jax':
        return ctx.jarr(list(u))
    return dict(zip(names, u))


def precise(ctx, tag, container):
    """requests within the limits are applied as they are, not rounded"""
    kind = KINDS[tag]
    e, x = kind.make(ctx), ctx.real('x', -1, 1)
    u = [lo + (hi - lo) * f for lo, hi, f in zip(kind.ulo, kind.uhi, (1 / 3, 0.7, 0.123456789012, 1 / 7, 0.9, 0.55))]
    seen = []
    old = e.dynamics.step

    def step(step_size, state, control, *a, **k):
        seen.append(control)
        return old(step_size, state, control, *a, **k)

    e.dynamics.step = step
    e.step(0.5, make_action(ctx, container, u, kind.names))
    ctx.check(len(seen) == 1, 'the dynamics stepped once')
    for i, (a, b) in enumerate(zip(ctx.flat(seen[0]), u)):
        ctx.close(f'applied[{i}]', (a - b) * x, 0.0 * x, atol=1e-12)


def entity(ctx, tag, container):
    kind = KINDS[tag]
    if kind.jax or container == 'jax':
        ctx.rel = 3e-5
        ctx.atol = 1e-6
    s = kind.state(ctx)
    u = kind.control(ctx, scale=1000.0)
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    act = make_action(ctx, container, u, kind.names)
    lims = ctx.flat(e.control_min), ctx.flat(e.control_max)
    h = ctx.real('h', 0.001, 10 if ctx.rel > 1e-5 else 1000)
    _, w = ctx.warned(lambda: e.step(h, act))
    ctx.check(len(w) <= 1, 'more than one warning')
    check_effect(ctx, kind, e, s, u, h, bool(w))
    now = list(act.values()) if container == 'dict' else (list(act) if container == 'list' else ctx.flat(act))
    ctx.check(len(now) == kind.m, 'the request changed length')
    ctx.closes('request after the step', now, [(x, ) for x in u])
    same(ctx, 'control_min after the step', e.control_min, lims[0])
    same(ctx, 'control_max after the step', e.control_max, lims[1])
    if kind.tag in ('dub2d', 'dub3d'):
        ctx.closes('control_min', lims[0], [(x, ) for x in kind.ulo])
        ctx.closes('control_max', lims[1], [(x, ) for x in kind.uhi])


def limits_generic(ctx, m, style, container):
    """arbitrary actuator limits, one per actuator or one for all"""
    if container == 'jax':
        ctx.rel, ctx.atol = 3e-5, 1e-6
    if style in ('array', 'mixed'):
        lo, hi = ctx.vec('lo', m, -1000, 1000), ctx.vec('hi', m, -1000, 1000)
        for a, b in zip(lo, hi):
            ctx.assume(a <= b)
        clo, chi = ctx.arr(lo), ctx.arr(hi)
    else:
        a, b = ctx.real('lo', -1000, 1000), ctx.real('hi', -1000, 1000)
        ctx.assume(a <= b)
        lo, hi = [a] * m, [b] * m
        clo, chi = a, b
    if style == 'mixed':  # limits of some actuators only
        lo, hi = [x if i != 1 else -1e30 for i, x in enumerate(lo)], [x if i > 0 else 1e30 for i, x in enumerate(hi)]
        clo = ctx.arr([x if i != 1 else float('-inf') for i, x in enumerate(lo)])
        chi = ctx.arr([x if i > 0 else float('inf') for i, x in enumerate(hi)])
    u, s = ctx.vec('u', m, -3000, 3000), ctx.vec('s', m, -10, 10)
    B = ctx.arr([[1.0 if i == j else 0.0 for j in range(m)] for i in range(m)])
    A = ctx.arr([[0.0] * m for i in range(m)])
    names = [f'a{i}' for i in range(m)]
    e = generic(ctx, m, m, control_min=clo, control_max=chi, control_map={k: i for i, k in enumerate(names)}, A=A, B=B,
                dyn=dict(integration_method='Euler'))
    e.state = ctx.arr(s)
    act = make_action(ctx, container, u, names)
    _, w = ctx.warned(lambda: e.step(1.0, act))
    got = ctx.flat(e.state)
    for i in range(m):
        ctx.close(f'state[{i}]', got[i], s[i], ctx.Min(ctx.Max(u[i], lo[i]), hi[i]))
    warn_check(ctx, u, lo, hi, bool(w))
    if style == 'array':
        same(ctx, 'control_min after the step', clo, lo)
        same(ctx, 'control_max after the step', chi, hi)


def dubins_limits(ctx, tag):
    """aircraft actuator limits given by the caller"""
    kind = KINDS[tag]
    lo = ctx.vec('lo', kind.m, -2, 0)
    hi = ctx.vec('hi', kind.m, 0, 2)
    kw = {}
    for nm, a, b in zip(kind.names, lo, hi):
        kw[f'{nm}_control_min'], kw[f'{nm}_control_max'] = a, b
    e = kind.make(ctx, **kw)
    s = ctx.vec('s', kind.n, [max(x, -1.0) if x < 0 else x + 10 for x in kind.slo], [min(x, 1.0) if x < 100 else x - 10 for x in kind.shi])
    kind.put(ctx, e, s)
    u = ctx.vec('u', kind.m, -3, 3)
    ctx.quiet(lambda: e.step(0.01, ctx.arr(u)))
    d0 = kind.f(ctx, s, [ctx.Min(ctx.Max(x, a), b) for x, a, b in zip(u, lo, hi)])
    got = ctx.flat(e.state)
    first = kind.n - (2 if tag == 'dub2d' else 3)
    for i in range(first, kind.n):
        if kind.smin[i] is None or i == kind.n - 1:
            t = (s[i], 0.01 * total(d0[i]))
            ctx.close(f'state[{i}]', got[i], *t)
        else:
            ctx.close(f'state[{i}]', got[i], ctx.Min(ctx.Max(s[i] + 0.01 * total(d0[i]), kind.smin[i]), kind.smax[i]), rel=3e-6)


def second_step(ctx, tag):
    """clipping (or not clipping) a request leaves nothing behind for the next step: it is clipped and reported on its own"""
    kind = KINDS[tag]
    s = kind.state(ctx)
    u, v = kind.control(ctx, 'u', 3.0), kind.control(ctx, 'v', 3.0)
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    a = ctx.arr(list(u))
    ctx.quiet(lambda: e.step(1.0, a))
    kind.put(ctx, e, s)
    _, w = ctx.warned(lambda: e.step(1.0, ctx.arr(list(v))))
    check_effect(ctx, kind, e, s, v, 1.0, bool(w))


def lifetime(ctx, tag, n, inside):
    """the n-th request is clipped and reported like the first"""
    kind = KINDS[tag]
    e, u, s = kind.make(ctx), kind.control(ctx, 'u', 0.9 if inside else 3.0), kind.state(ctx)
    if not inside:
        ctx.assume(u[0] > kind.uhi[0] * 1.5)
    seen = []
    old = e.dynamics.step

    def step(step_size, state, control, *a, **kw):
        seen.append(control)
        return old(step_size, state, control, *a, **kw)

    e.dynamics.step = step
    want = kind.clip(ctx, u)
    a = ctx.arr(list(u))
    for k in range(n):
        kind.put(ctx, e, s)
        _, w = ctx.warned(lambda: e.step(1.0, a))
        ctx.check(bool(w) != inside, f'warning about request {k + 1}')
        if k == 0:
            ctx.check(len(seen) == 1, 'the dynamics stepped once')
            ctx.closes('applied', ctx.flat(seen[0]), [(x, ) for x in want])
        ctx.closes(f'applied for request {k + 1}', ctx.flat(seen[-1]), [(x, ) for x in ctx.flat(seen[0])])


def at_limit(ctx, tag, which):
    """a request exactly on its limits is within them: applied as it is, without a warning"""
    if tag == 'generic':
        m = 2
        lo, hi, s = ctx.vec('lo', m, -1000, 1000), ctx.vec('hi', m, -1000, 1000), ctx.vec('s', m, -10, 10)
        for a, b in zip(lo, hi):
            ctx.assume(a <= b)
        e = generic(ctx, m, m, control_min=ctx.arr(lo), control_max=ctx.arr(hi), control_map={'a': 0, 'b': 1}, A=ctx.arr([[0.0, 0.0], [0.0, 0.0]]),
                    B=ctx.arr([[1.0, 0.0], [0.0, 1.0]]), dyn=dict(integration_method='Euler'))
        e.state = ctx.arr(s)
    else:
        kind = KINDS[tag]
        m = kind.m
        e = kind.make(ctx)
        kind.put(ctx, e, kind.state(ctx))
        lo, hi = ctx.flat(e.control_min), ctx.flat(e.control_max)
        lo, hi = (lo * m, hi * m) if len(lo) != m else (lo, hi)
    mid = ctx.vec('mid', m, 0.1, 0.9)
    u = []
    for i in range(m):
        w = which if i == 0 or which != 'mixed' else ctx.choice(f'at{i}', ['lo', 'mid', 'hi'])
        w = 'hi' if w == 'mixed' else w
        u.append({'lo': lo[i], 'hi': hi[i], 'mid': lo[i] + mid[i] * (hi[i] - lo[i])}[w])
    if tag != 'generic':
        u = [float(x) if which != 'mixed' and not hasattr(x, 'e') else x for x in u]
    _, w = ctx.warned(lambda: e.step(1.0, ctx.arr(u)))
    ctx.check(not w, 'warning although every component is within its limits')
    if tag == 'generic':
        ctx.closes('state', ctx.flat(e.state), [(a, b) for a, b in zip(s, u)])


def infinite(ctx, tag, container, sign):
    """a request without bound is clipped to the limit like any other"""
    kind = KINDS[tag]
    e, u = kind.make(ctx), kind.control(ctx)
    k = ctx.choice('k', list(range(kind.m)))
    u = list(u)
    u[k] = sign * float('inf')
    seen = []
    old = e.dynamics.step

    def step(step_size, state, control, *a, **kw):
        seen.append(control)
        return old(step_size, state, control, *a, **kw)

    e.dynamics.step = step
    kind.put(ctx, e, kind.state(ctx))
    _, w = ctx.warned(lambda: e.step(1.0, make_action(ctx, container, u, kind.names)))
    ctx.check(bool(w), 'no warning although a component is outside its limits')
    ctx.check(len(seen) == 1, 'the dynamics stepped once')
    for i, (a, x, lo, hi) in enumerate(zip(ctx.flat(seen[0]), u, kind.ulo, kind.uhi)):
        if i == k:
            ctx.close(f'applied[{i}]', a, hi if sign > 0 else lo)
        else:
            ctx.close(f'applied[{i}]', a, ctx.Min(ctx.Max(x, lo), hi))


def cases(tier):
    out = []
    for k in kinds(skip=('sun', 'sun-jax')):
        for c in ('list', 'ndarray', 'jax', 'dict'):
            out.append(Case(f'{k}-{c}', entity, dict(tag=k.tag, container=c)))
        if not k.jax:
            out += [Case(f'precise-{k}-{c}', precise, dict(tag=k.tag, container=c)) for c in ('ndarray', 'dict')]
    for m in (1, 2, 3):
        for style in ('array', 'scalar', 'mixed'):
            for c in ('list', 'ndarray', 'jax', 'dict'):
                out.append(Case(f'limits-{m}-{style}-{c}', limits_generic, dict(m=m, style=style, container=c),
                                tier='quick' if m < 3 or c == 'ndarray' else 'thorough'))
    for t in ['generic'] + [k.tag for k in kinds(skip=('sun', 'sun-jax')) if not k.jax]:
        for w in ('lo', 'hi') + (('mixed', ) if t == 'generic' else ()):
            out.append(Case(f'at-limit-{t}-{w}', at_limit, dict(tag=t, which=w)))
    for k in kinds(skip=('sun', 'sun-jax')):
        if not k.jax:
            for c in ('list', 'ndarray', 'dict'):
                out += [Case(f'infinite-{k}-{c}-{"+" if g > 0 else "-"}', infinite, dict(tag=k.tag, container=c, sign=g),
                             tier='quick' if c == 'ndarray' or g > 0 and k.m < 3 else 'thorough') for g in (1, -1)]
    for t, n in (('int1d', 270), ('dub2d', 130), ('cwh3d', 130)):
        out += [Case(f'lifetime-{t}-{"inside" if i else "outside"}', lifetime, dict(tag=t, n=n, inside=i), tier='quick' if n > 200 or not i else 'thorough', opts=dict(max_decisions=20000)) for i in (True, False)]
    for t in ('dub2d', 'dub3d'):
        out.append(Case(f'aircraft-limits-{t}', dubins_limits, dict(tag=t)))
    for k in kinds(skip=('sun', 'sun-jax', 'sixdof-hill')):
        out.append(Case(f'second-{k}', second_step, dict(tag=k.tag), tier='quick' if k.tag in ('cwh3d', 'rot2d', 'dub2d', 'int1d') else 'thorough'))
    return out
