"""C08: stepping depends only on current state and control."""
from checks.common import *

BOUNDS = ('the same step 12 to 24 times in a row, and 130 to 1030 times by Euler; histories of 1-3 (also 12) earlier steps with arbitrary states, actions, step sizes, containers, rejected actions, read-outs and component assignments, then a step from an '
          'arbitrary state compared with a fresh entity; two entities with different parameters stepped alternately; all integration methods '
          '(adaptive integrators replaced by arbitrary functions that return the same end state for both)')


def act(ctx, kind, u, how='ndarray'):
    if not kind.m:
        return None
    if how == 'list':
        return list(u)
    if how == 'dict':
        return dict(zip(kind.names, u))
    return ctx.arr(list(u))


def look(e):
    for nm in ('state', 'position', 'velocity', 'orientation', 'acceleration', 'quaternion', 'angular_velocity', 'x', 'heading', 'theta'):
        try:
            getattr(e, nm)
        except (AttributeError, NotImplementedError):
            pass


def final(ctx, kind, method, e, f, s, u, h):
    """the step whose result may not depend on the history of e"""
    kind.put(ctx, e, s)
    kind.put(ctx, f, s)
    stub = None
    if method != 'Euler':
        stub = OdeStub(ctx, kind.n, tag='last')
        ctx.set_ode(stub)
    _, w1 = ctx.warned(lambda: e.step(h, act(ctx, kind, u)))
    if method != 'Euler':
        stub2 = OdeStub(ctx, kind.n, tag='last', reuse=stub)
        ctx.set_ode(stub2)
    _, w2 = ctx.warned(lambda: f.step(h, act(ctx, kind, u)))
    ctx.check(len(w1) == len(w2), 'same warnings as a fresh entity')
    same(ctx, 'state as a fresh entity', e.state, ctx.flat(f.state))
    same(ctx, 'derivative as a fresh entity', e.state_dot, ctx.flat(f.state_dot))
    if method != 'Euler':
        a, b = stub.calls[0], stub2.calls[0]
        ctx.close('integration start', a['t0'], b['t0'])
        ctx.close('integration end', a['t1'], b['t1'])
        ctx.closes('initial state', a['y0'], [(x, ) for x in b['y0']])
        ctx.check(a['method'] == b['method'], 'integrator as a fresh entity')
        for what in ('options', 't_eval'):
            alike(ctx, 'integrator ' + what, a[what], b[what])
        y, t = kind.state(ctx, 'probe'), ctx.real('tprobe', 0, 10)
        mk = ctx.jarr if kind.jax else ctx.arr
        same(ctx, 'integrated derivative as a fresh entity', a['deriv'](t, mk(list(y))), ctx.flat(b['deriv'](t, mk(list(y)))))


def alike(ctx, msg, x, y):
    """arguments passed on to the integrator"""
    if isinstance(x, dict) and isinstance(y, dict):
        ctx.check(sorted(x) == sorted(y), msg + ' as a fresh entity')
        for k in x:
            if k in y:
                alike(ctx, f'{msg} {k}', x[k], y[k])
    elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        ctx.check(len(x) == len(y), msg + ' as a fresh entity')
        for i, (p, q) in enumerate(zip(x, y)):
            alike(ctx, f'{msg}[{i}]', p, q)
    elif x is None or y is None or isinstance(x, (str, bool)) or isinstance(y, (str, bool)):
        ctx.check(x is y or isinstance(x, (str, bool)) and isinstance(y, (str, bool)) and x == y, msg + ' as a fresh entity')
    elif not callable(x):
        ctx.closes(msg, ctx.flat(x), [(v, ) for v in ctx.flat(y)])


def history(ctx, tag, method, steps, flavour):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method=method)
    if flavour != 'continue':
        kind.put(ctx, e, kind.state(ctx, 'p'))
    for k in range(steps):
        if flavour == 'long' and method == 'Euler':
            kind.put(ctx, e, kind.state(ctx, f'q{k}'))
        v = kind.control(ctx, f'v{k}', 0.9)
        hk = ctx.real(f'h{k}', 0.001, 2 if kind.jax or flavour == 'continue' else 1e4)
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'old{k}', end=kind.state(ctx, f'mid{k}')))
        ctx.quiet(lambda: e.step(hk, act(ctx, kind, v, ('ndarray', 'dict', 'list')[k % 3])))
        if flavour == 'reads':
            look(e)
        if flavour == 'errors':
            ctx.raises(lambda: e.step(1.0, {'no such actuator': 1.0}))
            ctx.raises(lambda: e.step(1.0, 'text'))
            if kind.m:
                ctx.raises(lambda: e.step(1.0, {kind.names[0]: 0.5, 'no such actuator': 1.0}))
        if flavour == 'clip' and kind.m:
            w = ctx.vec(f'w{k}', kind.m, [3 * abs(x) for x in kind.uhi], [5 * abs(x) for x in kind.uhi])
            if method != 'Euler':
                ctx.set_ode(OdeStub(ctx, kind.n, tag=f'clip{k}', end=kind.state(ctx, f'cm{k}')))
            ctx.quiet(lambda: e.step(0.5, act(ctx, kind, w)))
    with ctx.elsewhere():
        f = kind.make(ctx, method=method, name='fresh')
    if flavour == 'continue':
        # go on from wherever the history led: same as a fresh entity put there
        s = ctx.flat(e.state)
    else:
        s = kind.state(ctx, 's')
    u = kind.control(ctx, 'u', 0.9)
    final(ctx, kind, method, e, f, s, u, ctx.real('h', 0.001, 2 if kind.jax or flavour == 'continue' else 1e4))


def repeat(ctx, tag, method, times):
    """the same step over and over gives the same result every time"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method=method)
    s, u, h = kind.state(ctx), kind.control(ctx, 'u', 2.0 if method == 'Euler' and times < 100 else 0.9), ctx.real('h', 0.001, 2 if kind.jax else 1e4)
    first, stub, warned = None, None, None
    for k in range(times):
        kind.put(ctx, e, s)
        if method != 'Euler':
            st = OdeStub(ctx, kind.n, tag='rep', reuse=stub)
            ctx.set_ode(st)
        _, w = ctx.warned(lambda: e.step(h, act(ctx, kind, u)))
        got = ctx.flat(e.state), ctx.flat(e.state_dot)
        if k == 0:
            first, warned = got, len(w)
            stub = st if method != 'Euler' else None
            continue
        ctx.check(len(w) == warned, f'same warnings the {k + 1}th time')
        ctx.closes(f'state the {k + 1}th time', got[0], [(x, ) for x in first[0]])
        ctx.closes(f'derivative the {k + 1}th time', got[1], [(x, ) for x in first[1]])
        if method != 'Euler':
            a = st.calls[0]
            ctx.close('integration end', a['t1'], h)
            ctx.closes('initial state', a['y0'], [(x, ) for x in s])


def near(ctx, tag, method, vary):
    """after a step from one given state, a step that differs from it in one respect only, and possibly very little"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method=method)
    with ctx.elsewhere():
        f = kind.make(ctx, method=method, name='fresh')
    s = [(0.3 * a + 0.7 * b) * (0.91 - 0.03 * i) for i, (a, b) in enumerate(zip(kind.slo, kind.shi))]
    if tag.startswith('sixdof'):
        s[3:7] = [0.1, 0.5, -0.5, 0.7]
    u = [(0.4 * a + 0.6 * b) * (0.9 - 0.1 * i) for i, (a, b) in enumerate(zip(kind.ulo, kind.uhi))]
    h = 0.5
    t, v, k = list(s), list(u), h
    if vary == 'state':
        t = [x + ctx.real(f'ds{i}', -0.01, 0.01) for i, x in enumerate(s)]
    elif vary == 'control':
        v = [x + ctx.real(f'du{i}', -0.1 * abs(x), 0.1 * abs(x)) for i, x in enumerate(u)]
    else:
        k = ctx.real('h', 0.001, 5)
    kind.put(ctx, e, s)
    if method != 'Euler':
        ctx.set_ode(OdeStub(ctx, kind.n, tag='old', end=s))
    ctx.quiet(lambda: e.step(h, act(ctx, kind, u)))
    final(ctx, kind, method, e, f, t, v, k)


def overwritten(ctx, tag):
    """the derivative is that of the values in the arrays now, even when the caller reuses the arrays"""
    kind = KINDS[tag]
    e = kind.make(ctx)
    with ctx.elsewhere():
        f = kind.make(ctx, name='fresh')
    s, u, r, v, t = kind.state(ctx, 's'), kind.control(ctx, 'u', 0.9), kind.state(ctx, 'r'), kind.control(ctx, 'v', 0.9), ctx.real('t', 0, 10)
    a, b = ctx.arr(list(s)), ctx.arr(list(u))
    e.dynamics.compute_state_dot(t, a, b)
    for x, w in ((a, r), (b, v)):
        for i, val in enumerate(w):
            x[i] = val
    same(ctx, 'derivative after reusing the arrays', e.dynamics.compute_state_dot(t, a, b), ctx.flat(f.dynamics.compute_state_dot(t, ctx.arr(list(r)), ctx.arr(list(v)))))


def by_component(ctx, tag, method):
    """a state changed component by component between the steps"""
    kind = KINDS[tag]
    keys = dict(dub2d=('x', 'y', 'heading', 'v'), dub3d=('x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'))[tag]
    e = kind.make(ctx, method=method)
    with ctx.elsewhere():
        f = kind.make(ctx, method=method, name='fresh')
    s, t, u = kind.state(ctx, 's'), kind.state(ctx, 't'), kind.control(ctx, 'u', 0.9)
    kind.put(ctx, e, s)
    for k in range(2):
        ctx.set_ode(OdeStub(ctx, kind.n, tag=f'old{k}', end=s))
        ctx.quiet(lambda: e.step(0.5, act(ctx, kind, u)))
        look(e)
        for nm, x in zip(keys, t):
            setattr(e, nm, x)
    kind.put(ctx, f, t)
    ends = kind.state(ctx, 'end')
    for x in (e, f):
        ctx.set_ode(OdeStub(ctx, kind.n, tag='last' + x.name, end=ends))
        ctx.quiet(lambda: x.step(0.5, act(ctx, kind, u)))
    same(ctx, 'state as a fresh entity', e.state, ctx.flat(f.state))
    same(ctx, 'derivative as a fresh entity', e.state_dot, ctx.flat(f.state_dot))


def idle(ctx, tag):
    """a step without action after steps with actions"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx)
    with ctx.elsewhere():
        f = kind.make(ctx, name='f')
    kind.put(ctx, e, kind.state(ctx, 'p'))
    for how in ('ndarray', 'dict', 'list'):
        ctx.quiet(lambda: e.step(0.5, act(ctx, kind, kind.control(ctx, 'v' + how, 0.9), how)))
    s = kind.state(ctx, 's')
    kind.put(ctx, e, s)
    kind.put(ctx, f, s)
    e.step(0.5)
    f.step(0.5)
    same(ctx, 'state as a fresh entity', e.state, ctx.flat(f.state))


PARAMS = {
    'cwh3d': (('m', 5, 20), ('n', 0.0005, 0.002)), 'rot2d': (('m', 5, 20), ('n', 0.0005, 0.002), ('inertia', 0.03, 0.1)),
    'rot2d-jax': (('m', 5, 20), ('n', 0.0005, 0.002), ('inertia', 0.03, 0.1)), 'sixdof': (('m', 5, 20), ('n', 0.0005, 0.002)),
    'dub2d': (('v_max', 350, 500), ), 'dub3d': (('v_max', 350, 500), ('gamma_max', 0.1, 0.5)), 'int1d': (('m', 0.5, 3), ('damping', 0, 1)),
    'int2d': (('m', 0.5, 3), ('damping', 0, 1)), 'int3d': (('m', 0.5, 3), ('damping', 0, 1)), 'sun': (('n', 0.0005, 0.002), ),
    'sun-jax': (('n', 0.0005, 0.002), )
}


def other(ctx, tag, otag):
    """another entity, created and stepped before, between and after, makes no difference"""
    kind, ok = KINDS[tag], KINDS[otag]
    if kind.jax or ok.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    kw = {nm: ctx.real('par_' + nm, a, b) for nm, a, b in PARAMS[otag]}
    s, u, h = kind.state(ctx, 's'), kind.control(ctx, 'u', 0.9), ctx.real('h', 0.001, 2 if kind.jax else 1e4)
    with ctx.elsewhere():
        alone = kind.make(ctx, name='alone')
        kind.put(ctx, alone, s)
        ctx.quiet(lambda: alone.step(h, act(ctx, kind, u)))
    want, wantd = ctx.flat(alone.state), ctx.flat(alone.state_dot)
    o1 = ok.make(ctx, name='before', **kw)
    e = kind.make(ctx, name='e')
    o2 = ok.make(ctx, name='after', **kw)
    kind.put(ctx, e, s)
    for i, o in enumerate((o1, o2)):
        ok.put(ctx, o, ok.state(ctx, f'os{i}'))
        ctx.quiet(lambda: o.step(0.5, act(ctx, ok, ok.control(ctx, f'ou{i}', 0.9), 'dict' if i else 'list')))
    ctx.quiet(lambda: e.step(h, act(ctx, kind, u)))
    same(ctx, 'state next to another entity', e.state, want)
    same(ctx, 'derivative next to another entity', e.state_dot, wantd)
    keep = ctx.flat(o1.state)
    ctx.quiet(lambda: e.step(h, act(ctx, kind, u)))
    same(ctx, 'the other entity', o1.state, keep)


def twin(ctx, tag, nm, a, b, order):
    """another entity of the same kind in the same state and with the same action, that differs in one parameter only"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    par = ctx.real('par_' + nm, a, b)
    s, u, h = kind.state(ctx, 's'), kind.control(ctx, 'u', 0.9), ctx.real('h', 0.001, 2 if kind.jax else 1e4)
    want = []
    for kw in ({nm: par}, {}):
        with ctx.elsewhere():
            e = kind.make(ctx, name='alone', **kw)
            kind.put(ctx, e, s)
            ctx.quiet(lambda: e.step(h, act(ctx, kind, u)))
            want.append((ctx.flat(e.state), ctx.flat(e.state_dot)))
    two = [kind.make(ctx, name='a', **{nm: par}), kind.make(ctx, name='b')]
    for i in order:
        kind.put(ctx, two[i], s)
        ctx.quiet(lambda: two[i].step(h, act(ctx, kind, u)))
        same(ctx, f'state of entity {i} next to its twin', two[i].state, want[i][0])
        same(ctx, f'derivative of entity {i} next to its twin', two[i].state_dot, want[i][1])


def cases(tier):
    out = []
    for k in kinds():
        for j, (nm, a, b) in enumerate(PARAMS.get(k.tag, ())):
            for order in ((0, 1), (1, 0)):
                out.append(Case(f'twin-{k}-{nm}-{"ab" if order[0] == 0 else "ba"}', twin, dict(tag=k.tag, nm=nm, a=a, b=b, order=order),
                                tier='quick' if order[0] == 0 and not k.jax else 'thorough'))
        meths = ['Euler', 'RK45'] + (['RK45_JAX'] if k.jax else [])
        for m in meths:
            for vary in ('state', 'control', 'step'):
                if vary != 'control' or k.m:
                    q = m != 'RK45_JAX' and (m == 'Euler' or vary == 'state') and k.tag != 'sixdof-hill'
                    out.append(Case(f'near-{vary}-{m}-{k}', near, dict(tag=k.tag, method=m, vary=vary), tier='quick' if q else 'thorough'))
            for fl in ('plain', 'reads', 'errors', 'clip', 'continue'):
                st = 2 if fl == 'plain' else 1
                q = (m == 'Euler' and fl in ('plain', 'clip')) or (m == 'RK45' and fl == 'errors' and k.tag in ('cwh3d', 'dub3d', 'rot2d')) or \
                    (m == 'RK45_JAX' and fl == 'plain') or (fl in ('reads', 'continue') and m == 'Euler' and k.tag in ('dub2d', 'sixdof', 'int2d'))
                if k.tag == 'sixdof-hill':
                    q = False
                if fl == 'clip' and not k.m:
                    continue
                out.append(Case(f'{fl}-{m}-{k}', history, dict(tag=k.tag, method=m, steps=st, flavour=fl), tier='quick' if q else 'thorough'))
                if fl == 'plain':
                    if m != 'RK45_JAX':
                        out.append(Case(f'long-{m}-{k}', history, dict(tag=k.tag, method=m, steps=12, flavour='long'),
                                        tier='quick' if k.tag in ('cwh3d', 'rot2d', 'sixdof', 'dub2d', 'dub3d', 'int2d', 'sun') else 'thorough'))
                        out.append(Case(f'repeat-{m}-{k}', repeat, dict(tag=k.tag, method=m, times=24 if m == 'Euler' else 12),
                                        tier='quick' if m == 'Euler' or k.tag in ('cwh3d', 'dub3d', 'sun') else 'thorough'))
                    if m == 'Euler' and not k.jax:
                        big = {'int1d': 1030, 'dub2d': 520, 'sun': 520}.get(k.tag, 130)
                        out.append(Case(f'lifetime-{k}', repeat, dict(tag=k.tag, method=m, times=big), tier='quick' if k.n <= 6 else 'thorough'))
                    out.append(Case(f'{fl}3-{m}-{k}', history, dict(tag=k.tag, method=m, steps=3, flavour=fl), tier='thorough'))
        if not k.jax:
            out.append(Case(f'overwritten-{k}', overwritten, dict(tag=k.tag)))
        if k.tag in ('dub2d', 'dub3d'):
            for m in meths:
                out.append(Case(f'by-component-{m}-{k}', by_component, dict(tag=k.tag, method=m)))
        if k.m:
            out.append(Case(f'idle-{k}', idle, dict(tag=k.tag), tier='quick' if k.tag in ('cwh3d', 'dub2d', 'rot2d', 'int1d') else 'thorough'))
        for ot in PARAMS:
            out.append(Case(f'other-{k}-{ot}', other, dict(tag=k.tag, otag=ot), tier='quick' if ot == k.tag else 'thorough'))
    return out
