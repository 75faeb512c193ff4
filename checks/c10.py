"""C10: control-affine and linear models compute f(x) + g(x)u and Ax + Bu."""
import math

import numpy as np

from checks.common import *

BOUNDS = ('1-3 states and 1-3 controls (thorough: up to 4), entries of A, B in [-10, 10], states and controls in [-100, 100]; drift and input matrix of '
          'affine models are arbitrary polynomials of the state (degree 2, arbitrary coefficients); every ill-shaped pair of 0-3 dimensional arrays '
          'with sides up to 4; NumPy and JAX')


def lin(ctx, n, m, jax, via):
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-5
    A = [[ctx.real(f'A{i}{j}', -10, 10) for j in range(n)] for i in range(n)]
    B = [[ctx.real(f'B{i}{j}', -10, 10) for j in range(m)] for i in range(n)]
    s, u = ctx.vec('s', n, -100, 100), ctx.vec('u', m, -100, 100)
    e = generic(ctx, n, m, A=ctx.arr(A), B=ctx.arr(B), dyn=dict(integration_method='Euler', use_jax=jax))
    terms = [[A[i][j] * s[j] for j in range(n)] + [B[i][j] * u[j] for j in range(m)] for i in range(n)]
    if via == 'derivative':
        got = ctx.flat(e.dynamics.compute_state_dot(ctx.real('t', 0, 10), ctx.arr(s), ctx.arr(u)))
        for i in range(n):
            ctx.close(f'derivative[{i}]', got[i], *terms[i])
        f = ctx.flat(e.dynamics.state_transition_system(ctx.arr(s)))
        for i in range(n):
            ctx.close(f'drift[{i}]', f[i], *terms[i][:n])
        g = e.dynamics.state_transition_input(ctx.arr(s))
        ctx.check(tuple(g.shape) == (n, m), 'shape of the input matrix')
        ctx.closes('input matrix', ctx.flat(g), [(x, ) for r in B for x in r])
    else:
        h = ctx.real('h', 0.01, 1)
        e.state = ctx.arr(s)
        e.step(h, ctx.arr(u))
        got = ctx.flat(e.state)
        for i in range(n):
            ctx.close(f'state[{i}]', got[i], s[i], *[h * t for t in terms[i]])


def number_types(ctx, jax, which):
    """matrices of whole numbers, of single precision or of booleans next to others"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-5
    s, u = ctx.vec('s', 2, -100, 100), ctx.vec('u', 2, -100, 100)
    whole = np.array([[0, 2], [-3, 1]], dtype=dict(int=np.int64, short=np.int8, single=np.float32)[which])
    frac = np.array([[0.5, -0.25], [1.75, 0.125]])
    for a, b in ((whole, frac), (frac, whole), (whole, whole), (whole.T, np.array([[True, False], [True, True]]))):
        for via in ('derivative', 'step'):
            e = generic(ctx, 2, 2, A=a, B=b, dyn=dict(integration_method='Euler', use_jax=jax))
            t = [[float(a[i, j]) * s[j] for j in range(2)] + [float(b[i, j]) * u[j] for j in range(2)] for i in range(2)]
            if via == 'derivative':
                got = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u)))
            else:
                e.state = ctx.arr(s)
                e.step(0.5, ctx.arr(u))
                got = ctx.flat(e.state)
                t = [[s[i]] + [0.5 * x for x in r] for i, r in enumerate(t)]
            for i in range(2):
                ctx.close(f'{via}[{i}] with {a.dtype} and {b.dtype}', got[i], *t[i])


def affine(ctx, n, m, via, limits=False):
    bm = ctx.mod('base_models')
    p = [[ctx.real(f'p{i}{j}', -2, 2) for j in range(n)] for i in range(n)]
    q = [[[ctx.real(f'q{i}{k}{j}', -2, 2) for j in range(n)] for k in range(m)] for i in range(n)]

    def drift(x):
        return [sum(p[i][j] * x[j] * x[j] for j in range(n)) for i in range(n)]

    def inp(x):
        return [[1.0 + sum(q[i][k][j] * x[j] for j in range(n)) for k in range(m)] for i in range(n)]

    class Dyn(bm.BaseControlAffineODESolverDynamics):

        def state_transition_system(self, state):
            return ctx.arr(drift(state))

        def state_transition_input(self, state):
            return ctx.arr(inp(state))

    s, u = ctx.vec('s', n, -5, 5), ctx.vec('u', m, -5, 5)
    h = ctx.real('h', 0.1, 1)

    def terms(x):
        f, g = drift(x), inp(x)
        return [[f[i]] + [g[i][k] * u[k] for k in range(m)] for i in range(n)]

    if via == 'derivative':
        lo, hi = [-math.inf] * n, [math.inf] * n
        if limits:      # at and beyond the limits too: drift and input are those of the state itself
            lo[0], hi[0] = ctx.real('lo', -4, -1), ctx.real('hi', 1, 4)
        d = Dyn(state_min=ctx.arr(lo), state_max=ctx.arr(hi)) if limits else Dyn()
        for tm in (0.0, ctx.real('t', 0, 10)):
            got = ctx.flat(d.compute_state_dot(tm, ctx.arr(s), ctx.arr(u)))
            for i, t in enumerate(terms(s)):
                if limits and i == 0:
                    w = sum(t[1:], t[0])
                    w = ctx.ite(s[0] <= lo[0], ctx.Max(w, 0.0), ctx.ite(s[0] >= hi[0], ctx.Min(w, 0.0), w))
                    ctx.close(f'limited derivative[{i}]', got[i], w)
                    continue
                ctx.close(f'derivative[{i}]', got[i], *t)
    elif via == 'ivp':
        d = Dyn(integration_method='RK45')
        y = ctx.vec('y', n, -5, 5)
        stub = OdeStub(ctx, n, end=ctx.vec('end', n, -5, 5))
        ctx.set_ode(stub)
        d.step(h, ctx.arr(s), ctx.arr(u))
        got = ctx.flat(stub.calls[0]['deriv'](0.3, ctx.arr(y)))
        for i, t in enumerate(terms(y)):
            ctx.close(f'derivative along the trajectory[{i}]', got[i], *t)
    else:
        d = Dyn(integration_method='Euler')
        x, _ = d.step(h, ctx.arr(s), ctx.arr(u))
        got = ctx.flat(x)
        for i, t in enumerate(terms(s)):
            ctx.close(f'state[{i}]', got[i], s[i], *[h * w for w in t])


def shapes(ctx, jax):
    bm = ctx.mod('base_models')
    v = ctx.real('entry', -2, 2)

    def mk(shape):
        a = 0.0
        def build(sh):
            return v if not sh else [build(sh[1:]) for _ in range(sh[0])]
        return ctx.arr(build(list(shape)))

    sh = [(), (1, ), (2, ), (3, ), (1, 1, 1), (2, 2, 2)] + [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]
    for a in sh:
        for b in sh:
            good = len(a) == 2 and len(b) == 2 and a[0] == a[1] and a[1] == b[0]
            err = ctx.raises(lambda: bm.BaseLinearODESolverDynamics(A=mk(a), B=mk(b), use_jax=jax))
            if good:
                ctx.check(err is None, f'A {a} with B {b} accepted')
            else:
                ctx.check(err is not None, f'A {a} with B {b} rejected')


def entities(ctx, tag):
    """the derivative of an entity is its drift plus its input matrix times the control, both at the given state"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    s, u = kind.state(ctx), kind.control(ctx)
    e = kind.make(ctx)
    d = e.dynamics
    mk = ctx.jarr if kind.jax else ctx.arr
    f = ctx.flat(d.state_transition_system(mk(list(s))))
    g = d.state_transition_input(mk(list(s)))
    ctx.check(tuple(g.shape) == (kind.n, kind.m), 'shape of the input matrix')
    got = ctx.flat(d.compute_state_dot(0.0, mk(list(s)), mk(list(u))))
    for i in range(kind.n):
        if kind.smin[i] is None and not (kind.dmin and kind.dmin[i] is not None):
            ctx.close(f'derivative[{i}]', got[i], f[i], *[g[i, k] * u[k] for k in range(kind.m)])


def cases(tier):
    out = []
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3):
            for jax in (False, True):
                for via in ('derivative', 'step'):
                    q = (n, m) in ((1, 1), (2, 1), (2, 3), (3, 2)) and (not jax or (n, m) == (2, 3))
                    out.append(Case(f'linear-{n}-{m}-{"jax" if jax else "np"}-{via}', lin, dict(n=n, m=m, jax=jax, via=via), tier='quick' if q else 'thorough'))
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
        for via in ('derivative', 'ivp', 'euler'):
            out.append(Case(f'affine-{n}-{m}-{via}', affine, dict(n=n, m=m, via=via), tier='quick' if n < 3 else 'thorough'))
        out.append(Case(f'affine-{n}-{m}-limits', affine, dict(n=n, m=m, via='derivative', limits=True)))
    for j in (False, True):
        out += [Case(f'numbers-{w}-{"jax" if j else "np"}', number_types, dict(jax=j, which=w)) for w in ('int', 'short', 'single')]
        out.append(Case(f'shapes-{"jax" if j else "np"}', shapes, dict(jax=j), opts=dict(witnesses=1)))
    for k in kinds(skip=('sun', 'sun-jax')):
        out.append(Case(f'entity-{k}', entities, dict(tag=k.tag)))
    return out
