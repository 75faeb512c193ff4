"""C09: state, controls and matrices are never shared by reference."""
from checks.common import *

BOUNDS = ('every entity class, arbitrary states, controls and overwriting values; every array read-out, assigned state, passed action and model matrix '
          'is overwritten (all of it and single elements) and the entity compared with its description; arrays held by the caller are compared after '
          'one Euler and one adaptive step; derivative read-outs kept over later steps and assignments; models that return arrays they keep; matrices: linear systems of 1-3 states, six-DOF inertia')

READS = ('state', 'position', 'velocity', 'angular_velocity', 'quaternion', 'acceleration', 'orientation')


def junk(ctx, a, v):
    """overwrite an array the caller obtained"""
    try:
        a[...] = v
    except (TypeError, ValueError, IndexError):
        pass


def reads(e):
    out = {}
    for nm in READS:
        try:
            out[nm] = getattr(e, nm)
        except (AttributeError, NotImplementedError):
            pass
    return out


def step_as(ctx, kind, e, s, u, what):
    ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u)) if kind.m else None))
    want, got = euler_state(ctx, kind, s, u, 1.0), ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] {what}', got[i], want[i])


def readouts(ctx, tag, after):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, v = kind.state(ctx), kind.control(ctx), ctx.real('junk', -500, 500)
    e = kind.make(ctx)
    if after == 'step':
        kind.put(ctx, e, kind.state(ctx, 'p'))
        ctx.quiet(lambda: e.step(0.5, ctx.arr(list(u)) if kind.m else None))
        s = ctx.flat(e.state)
    else:
        kind.put(ctx, e, s)
    for nm, a in reads(e).items():
        if nm == 'orientation':
            continue
        junk(ctx, a, v)
        ctx.closes(f'state after overwriting {nm}', ctx.flat(e.state), [(x, ) for x in s])
    if after != 'step':
        step_as(ctx, kind, e, s, u, 'after overwriting read-outs')


def initial(ctx, tag):
    """read-outs of a freshly constructed entity"""
    kind = KINDS[tag]
    v = ctx.real('junk', -500, 500)
    e, f = kind.make(ctx), kind.make(ctx, name='f')
    want = ctx.flat(e.state)
    for nm, a in reads(e).items():
        if nm != 'orientation':
            junk(ctx, a, v)
            ctx.closes(f'state after overwriting {nm}', ctx.flat(e.state), [(x, ) for x in want])
            ctx.closes('another entity', ctx.flat(f.state), [(x, ) for x in want])


def assigned(ctx, tag):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, v = kind.state(ctx), kind.control(ctx), ctx.real('junk', -500, 500)
    e, f = kind.make(ctx), kind.make(ctx, name='f')
    a = ctx.arr(list(s))
    e.state = a
    f.state = a
    junk(ctx, a, v)
    ctx.closes('state after overwriting the assigned array', ctx.flat(e.state), [(x, ) for x in s])
    b = e.state
    e.state = b
    junk(ctx, b, v)
    ctx.closes('state after overwriting a re-assigned array', ctx.flat(e.state), [(x, ) for x in s])
    step_as(ctx, kind, e, s, u, 'after overwriting the assigned array')
    ctx.closes('state of the other entity assigned the same array', ctx.flat(f.state), [(x, ) for x in s])


def action(ctx, tag, how):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, v = kind.state(ctx), kind.control(ctx), ctx.real('junk', -500, 500)
    e = kind.make(ctx)
    kind.put(ctx, e, s)
    a = list(u) if how == 'list' else ctx.arr(list(u)) if how == 'ndarray' else dict(zip(kind.names, u))
    ctx.quiet(lambda: e.step(1.0, a))
    now, dot = ctx.flat(e.state), ctx.flat(e.state_dot)
    if how == 'dict':
        ctx.closes('action values after the step', list(a.values()), [(x, ) for x in u])
        ctx.check(list(a) == list(kind.names), 'action names after the step')
    else:
        ctx.closes('action after the step', list(a) if how == 'list' else ctx.flat(a), [(x, ) for x in u])
    for k in (a if how == 'dict' else range(kind.m)):
        a[k] = v
    ctx.closes('state after overwriting the action', ctx.flat(e.state), [(x, ) for x in now])
    ctx.closes('derivative after overwriting the action', ctx.flat(e.state_dot), [(x, ) for x in dot])
    ctx.closes('default control', ctx.flat(e.control_default), [(0.0, )] * kind.m)
    kind.put(ctx, e, s)
    step_as(ctx, kind, e, s, u, 'after overwriting an earlier action')
    kind.put(ctx, e, s)
    e.step(1.0)
    want, got = euler_state(ctx, kind, s, [0.0] * kind.m, 1.0), ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] with the default control', got[i], want[i])


def unset(ctx, value, container):
    """an action with a component that is not a number, or not finite, is not written to either"""
    s = ctx.vec('s', 3, -5, 5)
    u = ctx.vec('u', 3, -3, 3)
    e = generic(ctx, 3, 3, control_min=-1.0, control_max=1.0, control_map=dict(a=0, b=1, c=2), field=lambda t, x, c: list(x),
                dyn=dict(integration_method='Euler'))
    e.state = ctx.arr(s)
    i = ctx.choice('which', [0, 1, 2])
    w = list(u)
    w[i] = value
    a = ctx.arr(w) if container == 'ndarray' else w if container == 'list' else dict(zip('abc', w))
    for k in range(2):
        ctx.raises(lambda: ctx.quiet(lambda: e.step(0.5, a)))
        now = list(a.values()) if container == 'dict' else list(a)
        for j in range(3):
            if j != i:
                ctx.close(f'action[{j}] after the step', now[j], u[j])
            else:
                x = now[j]
                ctx.check(isinstance(x, float) and (x == value or (x != x and value != value)), f'action[{j}] after the step is still {value}')


def held(ctx, tag, method):
    """stepping leaves arrays the caller holds alone"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx, scale=2.0)
    e = kind.make(ctx, method=method)
    a, c = ctx.arr(list(s)), ctx.arr(list(u))
    e.state = a
    got = {k: x for k, x in reads(e).items() if k != 'orientation'}
    before = {k: ctx.flat(x) if not kind.tag == 'int1d' or k == 'state' else [x] for k, x in got.items()}
    before = {k: list(x) for k, x in before.items()}
    for k in range(2):
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'o{k}', end=kind.state(ctx, f'end{k}')))
        ctx.quiet(lambda: e.step(1.0, c if kind.m else None))
        ctx.closes('assigned array after a step', ctx.flat(a), [(x, ) for x in s])
        ctx.closes('action array after a step', ctx.flat(c), [(x, ) for x in u])
        for nm, x in got.items():
            now = [x] if kind.tag == 'int1d' and nm != 'state' else ctx.flat(x)
            ctx.closes(f'{nm} held across a step', now, [(w, ) for w in before[nm]])
        mid = e.state
        midv = list(ctx.flat(mid))
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'q{k}', end=kind.state(ctx, f'qend{k}')))
        ctx.quiet(lambda: e.step(0.5, c if kind.m else None))
        ctx.closes('state read between steps', ctx.flat(mid), [(x, ) for x in midv])


def derivative(ctx, tag, method):
    """a derivative read-out is kept over later steps and assignments"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u, v = kind.state(ctx), kind.control(ctx), kind.control(ctx, name='v')
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, s)
    first = e.state_dot
    initial = list(ctx.flat(first))
    for k in range(2):
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'o{k}', end=kind.state(ctx, f'end{k}')))
        ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u)) if kind.m else None))
        d = e.state_dot
        keep = list(ctx.flat(d))
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'q{k}', end=kind.state(ctx, f'qend{k}')))
        ctx.quiet(lambda: e.step(0.5, ctx.arr(list(v)) if kind.m else None))
        ctx.closes('derivative kept over a step', ctx.flat(d), [(x, ) for x in keep])
        ctx.closes('initial derivative kept over the steps', ctx.flat(first), [(x, ) for x in initial])
        d = e.state_dot
        keep = list(ctx.flat(d))
        kind.put(ctx, e, s)
        ctx.closes('derivative kept over an assignment', ctx.flat(d), [(x, ) for x in keep])


def kept(ctx, model, method, jax):
    """a model that returns arrays it keeps: they are not written to, and every step has the same increment"""
    bm = ctx.mod('base_models')
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    n = 2
    f, g, s, u = ctx.vec('f', n, -5, 5), ctx.vec('g', n, -5, 5), ctx.vec('s', n, -5, 5), ctx.vec('u', n, -5, 5)
    mk = ctx.jarr if jax else ctx.arr
    drift, inp = mk(f), mk([[g[0], 0.5], [0.0, g[1]]])
    want = [f[0] + g[0] * u[0] + 0.5 * u[1], f[1] + g[1] * u[1]]
    if model == 'affine':

        class Dyn(bm.BaseControlAffineODESolverDynamics):

            def state_transition_system(self, state):
                return drift

            def state_transition_input(self, state):
                return inp
    else:
        want = f

        class Dyn(bm.BaseODESolverDynamics):

            def _compute_state_dot(self, t, state, control):
                return drift

    d = Dyn(integration_method=method, use_jax=jax, state_min=mk([-20.0, -20.0]), state_max=mk([20.0, 20.0]))
    x = ctx.arr(s)
    for k in range(3):
        got = ctx.flat(d.compute_state_dot(0.0, mk(s), mk(u)))
        ctx.closes('derivative', got, [(w, ) for w in want])
    stub = OdeStub(ctx, n, end=s)
    ctx.set_ode(stub)
    for k in range(3):
        y, dot = d.step(0.25, x, ctx.arr(u))
        if method == 'Euler':
            for i in range(n):
                ctx.close(f'state[{i}]', ctx.flat(y)[i], ctx.Min(ctx.Max(s[i] + 0.25 * want[i], -20.0), 20.0))
        else:
            ctx.closes('integrated derivative', ctx.flat(stub.calls[-1]['deriv'](0.1, mk(s))), [(w, ) for w in want])
            ctx.closes('derivative at the end', ctx.flat(dot), [(w, ) for w in want])
        ctx.closes('state passed', ctx.flat(x), [(w, ) for w in s])
        ctx.closes('drift kept by the model', ctx.flat(drift), [(w, ) for w in f])
        ctx.closes('input matrix kept by the model', ctx.flat(inp), [(g[0], ), (0.5, ), (0.0, ), (g[1], )])


def matrices(ctx, n, m):
    A = [[ctx.real(f'A{i}{j}', -2, 2) for j in range(n)] for i in range(n)]
    B = [[ctx.real(f'B{i}{j}', -2, 2) for j in range(m)] for i in range(n)]
    a, b = ctx.arr(A), ctx.arr(B)
    e = generic(ctx, n, m, A=a, B=b, dyn=dict(integration_method='Euler'))
    f = generic(ctx, n, m, A=a, B=b, dyn=dict(integration_method='Euler'), name='f')
    s, u, v = ctx.vec('s', n, -5, 5), ctx.vec('u', m, -5, 5), ctx.real('junk', -50, 50)

    def check(x, what):
        x.state = ctx.arr(s)
        x.step(1.0, ctx.arr(u))
        got = ctx.flat(x.state)
        for i in range(n):
            ctx.close(f'state[{i}] {what}', got[i], s[i], *[A[i][j] * s[j] for j in range(n)], *[B[i][j] * u[j] for j in range(m)])

    check(e, 'before')
    ctx.closes('A after a step', ctx.flat(a), [(x, ) for r in A for x in r])
    ctx.closes('B after a step', ctx.flat(b), [(x, ) for r in B for x in r])
    junk(ctx, a, v)
    b[0, 0] = v
    check(e, 'after overwriting the matrices')
    junk(ctx, b, v)
    check(f, 'of another entity after overwriting the matrices')


def inertia(ctx, default):
    kind = KINDS['sixdof']
    m = ctx.mod('cwh.sixdof_model')
    J = m.INERTIA_MATRIX_DEFAULT if default else ctx.arr([[INERTIA, 0.0, 0.0], [0.0, INERTIA, 0.0], [0.0, 0.0, INERTIA]])
    e = kind.make(ctx) if default else kind.make(ctx, inertia_matrix=J)
    s, u, v = kind.state(ctx), kind.control(ctx), ctx.real('junk', 1, 50)
    keep = J.copy()
    try:
        J[0, 0], J[1, 1], J[2, 2] = v, 2 * v, 3 * v
        kind.put(ctx, e, s)
        ctx.quiet(lambda: e.step(1.0, ctx.arr(list(u))))
        want, got = euler_state(ctx, kind, s, u, 1.0), ctx.flat(e.state)
        for i in range(10, 13):
            bounded_close(ctx, kind, i, f'state[{i}] after overwriting the inertia matrix', got[i], want[i])
        ctx.closes('moment limits', ctx.flat(e.control_max)[3:], [(kind.uhi[3], )] * 3)
    finally:
        J[...] = keep


def cases(tier):
    out = []
    for k in kinds():
        for a in ('set', 'step'):
            out.append(Case(f'readouts-{a}-{k}', readouts, dict(tag=k.tag, after=a),
                            tier='quick' if a == 'set' and k.tag != 'sixdof-hill' else 'thorough'))
        out.append(Case(f'initial-{k}', initial, dict(tag=k.tag), tier='quick' if k.tag != 'sixdof-hill' else 'thorough'))
        out.append(Case(f'assigned-{k}', assigned, dict(tag=k.tag), tier='quick' if k.tag != 'sixdof-hill' else 'thorough'))
        if k.m:
            for how in ('ndarray', 'list', 'dict'):
                out.append(Case(f'action-{how}-{k}', action, dict(tag=k.tag, how=how), tier='quick' if how == 'ndarray' and k.tag != 'sixdof-hill' or k.tag == 'cwh3d' else 'thorough'))
        for mth in ['Euler', 'RK45'] + (['RK45_JAX'] if k.jax else []):
            out.append(Case(f'held-{mth}-{k}', held, dict(tag=k.tag, method=mth),
                            tier='quick' if k.tag != 'sixdof-hill' and (mth != 'RK45' or k.tag in ('cwh3d', 'dub2d')) else 'thorough'))
        for mth in ['Euler', 'RK45'] + (['RK45_JAX'] if k.jax else []):
            out.append(Case(f'derivative-{mth}-{k}', derivative, dict(tag=k.tag, method=mth), tier='quick' if k.n <= 7 and not k.jax else 'thorough'))
    for model in ('affine', 'ode'):
        for mth, j in (('Euler', False), ('RK45', False), ('Euler', True), ('RK45_JAX', True)):
            out.append(Case(f'kept-{model}-{mth}-{"jax" if j else "np"}', kept, dict(model=model, method=mth, jax=j)))
    for how in ('ndarray', 'list', 'dict'):
        for nm, v in (('nan', float('nan')), ('inf', float('inf'))):
            out.append(Case(f'unset-{nm}-{how}', unset, dict(value=v, container=how)))
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)):
        out.append(Case(f'matrices-{n}-{m}', matrices, dict(n=n, m=m)))
    out.append(Case('inertia-own', inertia, dict(default=False)))
    out.append(Case('inertia-default', inertia, dict(default=True), opts=dict(witnesses=2)))
    return out
