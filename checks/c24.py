"""C24: the sun rotates at the mean motion."""
from checks.common import *

BOUNDS = ('every mean motion in [-1, 1] rad/s, angle within 1000 rad, time within 1e5 s, step of up to 1e4 s, up to 4 Euler steps of different lengths; NumPy '
          'and JAX; 6 suns with neighbouring mean motions')


def make(ctx, jax, method, **kw):
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    n = ctx.real('n', -1, 1)
    return ctx.mod('cwh.sun_model').SunEntity(name='sun', n=n, use_jax=jax, integration_method=method, **kw), n


def deriv(ctx, jax):
    e, n = make(ctx, jax, 'RK45')
    mk = ctx.jarr if jax else ctx.arr
    for k in range(2):
        th, t = ctx.real(f'th{k}', -1000, 1000), ctx.real(f't{k}', 0, 1e5)
        ctx.closes('derivative', ctx.flat(e.dynamics.compute_state_dot(t, mk([th]), mk([]))), [(n, )])
        ctx.closes('derivative with a control', ctx.flat(e.dynamics.compute_state_dot(t, mk([th]), mk([ctx.real(f'u{k}', -5, 5)]))), [(n, )])


def euler(ctx, steps):
    th = ctx.real('th', -1000, 1000)
    e, n = make(ctx, False, 'Euler', theta=th)
    ctx.close('initial angle', e.theta, th)
    terms = [th]
    for k in range(steps):
        h = ctx.real(f'h{k}', 0.01, 1e4)
        e.step(h)
        terms.append(n * h)
        ctx.close(f'angle after step {k + 1}', e.theta, *terms)
        ctx.closes('reported derivative', ctx.flat(e.state_dot), [(n, )])


def integrated(ctx, jax, method):
    e, n = make(ctx, jax, method)
    th, h, end = ctx.real('th', -1000, 1000), ctx.real('h', 0.01, 1e4), ctx.vec('end', 1, -1000, 1000)
    e.state = ctx.arr([th])
    stub = OdeStub(ctx, 1, end=end)
    ctx.set_ode(stub)
    e.step(h)
    c = stub.calls[0]
    mk = ctx.jarr if jax else ctx.arr
    ctx.closes('integrated derivative', ctx.flat(c['deriv'](ctx.real('t', 0, 1e4), mk([ctx.real('y', -1000, 1000)]))), [(n, )])
    ctx.close('integrated from', c['y0'][0], th)
    ctx.close('duration', c['t1'] - c['t0'], h)
    ctx.close('angle', e.theta, end[0])
    ctx.closes('reported derivative', ctx.flat(e.state_dot), [(n, )])


def default(ctx):
    e = ctx.mod('cwh.sun_model').SunEntity(name='sun', integration_method='Euler')
    h = ctx.real('h', 0.01, 1e4)
    e.step(h)
    ctx.close('angle', e.theta, 0.001027 * h)


def dynamics(ctx):
    n, th, h = ctx.real('n', -1, 1), ctx.real('th', -1000, 1000), ctx.real('h', 0.01, 1e4)
    d = ctx.mod('cwh.sun_model').SunDynamics(n=n, integration_method='Euler')
    s, sd = d.step(h, ctx.arr([th]), ctx.arr([]))
    ctx.close('angle', ctx.flat(s)[0], th, n * h)
    ctx.close('derivative', ctx.flat(sd)[0], n)


def cases(tier):
    out = [Case('default', default), Case('dynamics', dynamics)]
    for j in (False, True):
        out += [Case(f'derivative-{"jax" if j else "np"}', deriv, dict(jax=j)),
                Case(f'ivp-{"jax" if j else "np"}', integrated, dict(jax=j, method='RK45'))]
    out.append(Case('odeint-jax', integrated, dict(jax=True, method='RK45_JAX')))
    for n in (1, 2, 4):
        out.append(Case(f'euler-{n}', euler, dict(steps=n)))
    out += memory_cases('sun', 'sun-jax', given=('n', ))
    return out
