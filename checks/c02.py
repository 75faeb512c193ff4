"""C02: named actions drive exactly their own actuator; bad actions change nothing."""
from checks.common import *

BOUNDS = ('every entity class with actuators; every subset of the actuator names (six-DOF: all singletons, all and each pair with the next; all 64 in '
          'the thorough tier), values anywhere within the actuator limits, states in the operating box, Euler steps of 0.001 to 1000 s; generic entities with up to 3 '
          'actuators, arbitrary defaults and arbitrary actuator order; 270 rounds on one entity; 14 unknown names before, after and without valid ones; 11 unsupported types')


def duration(ctx, kind):
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    return ctx.real('h', 0.001, 10 if kind.jax else 1000)


def after(ctx, kind, e, s, c, h, what):
    want = euler_state(ctx, kind, s, c, h)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] after {what}', got[i], want[i])


def subset(ctx, tag, how):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx)
    m = kind.m
    if how == 'any':
        inc = [ctx.boolean(f'named{i}') for i in range(m)]
    else:
        k = ctx.choice('first', list(range(m)))
        inc = [i == k or (how == 'pair' and i == (k + 1) % m) for i in range(m)]
    e, h = kind.make(ctx), duration(ctx, kind)
    kind.put(ctx, e, s)
    act = {nm: x for nm, x, b in zip(kind.names, u, inc) if b}
    if how == 'pair':
        act = dict(reversed(list(act.items())))
    ctx.quiet(lambda: e.step(h, act))
    after(ctx, kind, e, s, [x if b else 0.0 for x, b in zip(u, inc)], h, 'the named action')
    ctx.closes('default control afterwards', ctx.flat(e.control_default), [(0.0, )] * m)
    kind.put(ctx, e, s)
    e.step(h)
    after(ctx, kind, e, s, [0.0] * m, h, 'a later step without action')


def everything(ctx, tag, order):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx)
    e, h = kind.make(ctx), duration(ctx, kind)
    kind.put(ctx, e, s)
    items = list(zip(kind.names, u))
    if order == 'reversed':
        items.reverse()
    elif order == 'rotated':
        items = items[1:] + items[:1]
    ctx.quiet(lambda: e.step(h, dict(items)))
    after(ctx, kind, e, s, u, h, 'all actuators named')
    kind.put(ctx, e, s)
    ctx.quiet(lambda: e.step(h, {}))
    after(ctx, kind, e, s, [0.0] * kind.m, h, 'an action naming nothing')


def bad_name(ctx, tag, where):
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx)
    e, h = kind.make(ctx), duration(ctx, kind)
    kind.put(ctx, e, s)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u))))
    kind.put(ctx, e, s)
    sd = ctx.flat(e.state_dot)
    good = dict(zip(kind.names, u))
    nm = kind.names[0]
    for bad in ('thrust', 'thrust_w', '', 0, -1, None, nm.upper(), nm.title(), nm + ' ', ' ' + nm, nm + '_', nm.replace('_', '-'), nm[:-1], (nm, )):
        act = {bad: 1.0} if where == 'alone' else ({bad: 0.5, **good} if where == 'before' else {**good, bad: 0.5})
        ctx.expect_raise(lambda: e.step(h, act), 'KeyError', f'unknown name {bad!r} {where} valid ones')
        ctx.closes('state after a rejected action', ctx.flat(e.state), [(x, ) for x in s])
        ctx.closes('derivative after a rejected action', ctx.flat(e.state_dot), [(x, ) for x in sd])
        ctx.closes('default after a rejected action', ctx.flat(e.control_default), [(0.0, )] * kind.m)
    e.step(h)
    after(ctx, kind, e, s, [0.0] * kind.m, h, 'a step after a rejected action')


def bad_type(ctx, tag):
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx)
    e, h = kind.make(ctx), duration(ctx, kind)
    kind.put(ctx, e, s)
    sd = ctx.flat(e.state_dot)
    bads = [tuple(u), 0.5, 1, 'thrust_x', b'x', {'thrust_x'}, object(), True, range(kind.m), iter(list(u)), frozenset(kind.names)]
    for bad in bads:
        ctx.expect_raise(lambda: e.step(h, bad), 'ValueError', f'action of type {type(bad).__name__}')
        ctx.closes('state after a rejected action', ctx.flat(e.state), [(x, ) for x in s])
        ctx.closes('derivative after a rejected action', ctx.flat(e.state_dot), [(x, ) for x in sd])
    e.step(h)
    after(ctx, kind, e, s, [0.0] * kind.m, h, 'a step after a rejected action')


def number_types(ctx, tag, how):
    """the value counts, not the numeric type it comes in"""
    import numpy as np
    kind = KINDS[tag]
    s = kind.state(ctx)
    e, h = kind.make(ctx), duration(ctx, kind)
    base = [max(round(512 * min(abs(x), 1) / (i + 2)), 1) / 1024 for i, x in enumerate(kind.uhi)]  # exact in every type
    for cast in (float, np.float64, np.float32, np.float16, np.int64, int, np.array):
        u = [cast(x) if cast not in (int, np.int64) else cast(1 if abs(y) >= 1 else 0) for x, y in zip(base, kind.uhi)]
        c = [float(x) for x in u]
        kind.put(ctx, e, s)
        if how == 'dict':
            a = dict(zip(kind.names, u))
        elif how == 'list':
            a = list(u)
        else:
            if cast is np.array:
                continue
            a = np.array(u, dtype=type(u[0]))
        ctx.quiet(lambda: e.step(h, a))
        after(ctx, kind, e, s, c, h, f'{how} of {cast.__name__}')


def generic_default(ctx, m, perm):
    """arbitrary default control; actuator order given by the control map"""
    d, u, s = ctx.vec('d', m, -2, 2), ctx.vec('u', m, -2, 2), ctx.vec('s', m, -10, 10)
    inc = [ctx.boolean(f'named{i}') for i in range(m)]
    names = [f'a{i}' for i in range(m)]
    order = list(range(m)) if perm == 'id' else [(i + 1) % m for i in range(m)]
    B = ctx.arr([[1.0 if i == j else 0.0 for j in range(m)] for i in range(m)])
    A = ctx.arr([[0.0] * m for _ in range(m)])
    e = generic(ctx, m, m, control_default=ctx.arr(d), control_map=dict(zip(names, order)), A=A, B=B, dyn=dict(integration_method='Euler'))
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(1.0, {nm: x for nm, x, b in zip(names, u, inc) if b}))
    want = list(d)
    for j, b in enumerate(inc):
        if b:
            want[order[j]] = u[j]
    got = ctx.flat(e.state)
    for i in range(m):
        ctx.close(f'state[{i}]', got[i], s[i], want[i])
    e.state = ctx.arr(s)
    ctx.quiet(lambda: e.step(1.0))
    got = ctx.flat(e.state)
    for i in range(m):
        ctx.close(f'state[{i}] with the default', got[i], s[i], d[i])
    ctx.closes('default', ctx.flat(e.control_default), [(x, ) for x in d])


def lifetime(ctx, n):
    """the default and the names mean the same after many steps, with or without actions in between"""
    m = 2
    d, u, s = ctx.vec('d', m, -2, 2), ctx.vec('u', m, -2, 2), ctx.vec('s', m, -10, 10)
    e = generic(ctx, m, m, control_default=ctx.arr(d), control_map={'a': 1, 'b': 0}, A=ctx.arr([[0.0, 0.0], [0.0, 0.0]]), B=ctx.arr([[1.0, 0.0], [0.0, 1.0]]),
                dyn=dict(integration_method='Euler'))
    for k in range(n):
        for what, action, want in (('no action', None, (d[0], d[1])), ('first', {'a': u[0]}, (d[0], u[0])), ('second', {'b': u[1]}, (u[1], d[1]))):
            e.state = ctx.arr(s)
            ctx.quiet(lambda: e.step(1.0, action))
            ctx.closes(f'{what}, round {k + 1}', ctx.flat(e.state), [(s[0], want[0]), (s[1], want[1])])


def cases(tier):
    out = [Case('lifetime', lifetime, dict(n=270))]
    ks = kinds(skip=('sun', 'sun-jax'))
    for k in ks:
        if k.m <= 3:
            out.append(Case(f'subset-{k}', subset, dict(tag=k.tag, how='any')))
        else:
            out.append(Case(f'single-{k}', subset, dict(tag=k.tag, how='single'), tier='quick' if k.tag == 'sixdof' else 'thorough'))
            out.append(Case(f'pair-{k}', subset, dict(tag=k.tag, how='pair'), tier='quick' if k.tag == 'sixdof' else 'thorough'))
            out.append(Case(f'subset-{k}', subset, dict(tag=k.tag, how='any'), tier='thorough', opts=dict(budget=3000)))
        for o in ('given', 'reversed', 'rotated'):
            out.append(Case(f'all-{o}-{k}', everything, dict(tag=k.tag, order=o), tier='quick' if o == 'reversed' or k.m <= 3 and o == 'given' else 'thorough'))
        for w in ('alone', 'before', 'after'):
            out.append(Case(f'unknown-{w}-{k}', bad_name, dict(tag=k.tag, where=w), tier='quick' if w == 'before' or k.m == 3 else 'thorough'))
        for how in ('dict', 'list', 'ndarray'):
            out.append(Case(f'numbers-{how}-{k}', number_types, dict(tag=k.tag, how=how), tier='thorough' if k.tag == 'sixdof-hill' else 'quick'))
        out.append(Case(f'type-{k}', bad_type, dict(tag=k.tag)))
    for m in (1, 2, 3):
        for p in ('id', 'rot'):
            out.append(Case(f'default-{m}-{p}', generic_default, dict(m=m, perm=p)))
    return out
