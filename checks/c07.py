"""C07: trajectory samples are equally spaced, end at the step end, and are inert."""
from checks.common import *

BOUNDS = ('1-4 samples per step (a one-state system up to 101, in the thorough tier 257, and every class up to 8), any step size in [0.001, 100], any state and control in the operating box, every entity class '
          'with trajectory sampling; the integrator is an arbitrary function evaluated at the requested times; two consecutive steps; exact sample times for 26 sample counts and given step sizes')


def sample(ctx, e, kind, stub_tag, act, h, N, s, end):
    stub = OdeStub(ctx, kind.n, tag=stub_tag, end=end)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(h, act))
    ctx.check(len(stub.calls) == 1, 'one integration per step')
    rec = stub.calls[0]
    t, y = e.dynamics.trajectory_t, e.dynamics.trajectory
    ctx.check(t is not None and tuple(t.shape) == (N, ), 'number of stored times')
    ctx.check(y is not None and tuple(y.shape) == (N, kind.n), 'shape of the stored trajectory')
    ts = ctx.flat(t)
    for i in range(N):
        ctx.close(f'time of sample {i}', ts[i], h * (i + 1) / N)
    ctx.close('last sample time', ts[-1], h)
    ctx.close('integration starts at', rec['t0'], 0.0)
    ctx.close('integration ends at', rec['t1'], h)
    st = rec['samples_t']
    ctx.check(len(st) == N, 'integrator samples')
    for i in range(N):
        ctx.close(f'integrator sample time {i}', st[i], h * (i + 1) / N)
        ctx.closes(f'stored sample {i}', ctx.flat(y[i]), [(x, ) for x in rec['samples'][i]])
    ctx.closes('last stored sample is the integrated end state', ctx.flat(y[N - 1]), [(x, ) for x in end])
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}]', got[i], (end[i], ))
    return stub


def entity(ctx, tag, N, steps):
    kind = KINDS[tag]
    s, u, h = kind.state(ctx), kind.control(ctx), ctx.real('h', 0.001, 100)
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method='RK45', trajectory_samples=N)
    plain = kind.make(ctx, method='RK45')
    kind.put(ctx, e, s)
    kind.put(ctx, plain, s)
    act = ctx.arr(list(u))
    for k in range(steps):
        end = kind.state(ctx, f'end{k}')
        hk = h if k == 0 else ctx.real(f'h{k}', 0.001, 100)
        sample(ctx, e, kind, f'ode{k}', act, hk, N, s, end)
        # the same step without samples
        ctx.set_ode(OdeStub(ctx, kind.n, tag=f'plain{k}', end=end))
        ctx.quiet(lambda: plain.step(hk, act))
        same(ctx, 'state with and without samples', e.state, ctx.flat(plain.state))
        same(ctx, 'derivative with and without samples', e.state_dot, ctx.flat(plain.state_dot))


def system(ctx, n, N):
    s, u, h = ctx.vec('s', n, -5, 5), ctx.vec('u', n, -5, 5), ctx.real('h', 0.001, 100)
    eye = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    end = ctx.vec('end', n, -50, 50)
    kw = dict(A=ctx.arr(eye), B=ctx.arr(eye))
    e = generic(ctx, n, n, dyn=dict(integration_method='RK45', trajectory_samples=N), **kw)
    e.state = ctx.arr(s)
    stub = OdeStub(ctx, n, end=end)
    ctx.set_ode(stub)
    e.step(h, ctx.arr(u))
    ts = ctx.flat(e.dynamics.trajectory_t)
    ctx.closes('times', ts, [(h * (i + 1) / N, ) for i in range(N)])
    for i in range(N):
        ctx.closes(f'sample {i}', ctx.flat(e.dynamics.trajectory[i]), [(x, ) for x in stub.calls[0]['samples'][i]])
    ctx.closes('state', ctx.flat(e.state), [(x, ) for x in end])
    got = ctx.flat(e.state_dot)
    for i in range(n):
        ctx.close(f'derivative[{i}]', got[i], end[i], u[i])


def exact(ctx, hs, ns):
    """the last sample is at the end of the step exactly, whatever the rounding: the integrator refuses samples after the end"""
    kind, x = KINDS['int1d'], ctx.real('x', -1, 1)
    for N in ns:
        e = kind.make(ctx, method='RK45', trajectory_samples=N)
        for h in hs:
            e.state = ctx.arr([x, 0.0])
            stub = OdeStub(ctx, 2, tag=f'ode{N}-{h}', end=[x, 0.0])
            ctx.set_ode(stub)
            e.step(h, ctx.arr([0.0]))
            st = [float(t) for t in stub.calls[0]['samples_t']]
            ctx.check(len(st) == N, 'integrator samples')
            ctx.check(st[-1] == h, f'{N} samples of a step of {h}: the last sample is at the end of the step')
            ctx.check(all(a < b for a, b in zip([0.0] + st, st)), f'{N} samples of a step of {h}: times increase')
            ctx.close('state', ctx.flat(e.state)[0], x)


def cases(tier):
    out = []
    for k in kinds(skip=('sun', 'sun-jax')):
        for N in (1, 2, 3, 4, 8):
            out.append(Case(f'{k}-{N}', entity, dict(tag=k.tag, N=N, steps=2 if N < 4 else 1),
                            tier='quick' if (N in (1, 3) or k.tag == 'cwh3d' and N < 5) and k.tag != 'sixdof-hill' else 'thorough'))
    for i, hs in enumerate(((1.0, ), (0.1, ), (0.3, 7.0), (1 / 3, 1e-3), (123.456, 0.7))):
        out.append(Case(f'exact-{i}', exact, dict(hs=hs, ns=(1, 2, 3, 5, 6, 7, 10, 11, 13, 19, 23, 29, 37, 41, 47, 49, 55, 61, 82, 83, 93, 97, 98, 99, 103, 107)), tier='quick' if i < 3 else 'thorough'))
    for n in (1, 2):
        for N in (1, 2, 3, 4, 5, 8, 12, 16, 33, 64, 101, 257):
            out.append(Case(f'system-{n}-{N}', system, dict(n=n, N=N), tier='quick' if N < 5 or n == 1 and N < 200 else 'thorough'))
    return out
