"""C20: spacecraft read-outs are mutually consistent."""
from checks.common import *

BOUNDS = ('positions within 1e6, velocities within 1e4, every planar angle in [-pi, pi], every unit quaternion and every quaternion of norm between 0.5 '
          'and 2, rates within 1e3; after construction, state assignment (also of one component after everything was read), an Euler step and a solve_ivp step with an arbitrary result')
KEYS = {'cwh3d': ('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'), 'rot2d': ('x', 'y', 'theta', 'x_dot', 'y_dot', 'wz'),
        'sixdof': ('x', 'y', 'z', 'q1', 'q2', 'q3', 'q4', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz')}
KEYS['rot2d-jax'] = KEYS['rot2d']


def state(ctx, tag, name='s', unit=True):
    p, v = ctx.vec(name + 'p', 3, -1e6, 1e6), ctx.vec(name + 'v', 3, -1e4, 1e4)
    if tag == 'cwh3d':
        return p + v
    w = ctx.vec(name + 'w', 3, -1e3, 1e3)
    if tag.startswith('rot2d'):
        return p[:2] + [ctx.real(name + 'th', -3.14, 3.14)] + v[:2] + [w[2]]
    if unit:
        q = ctx.unit_quat(name + 'q')
    else:
        q = ctx.vec(name + 'q', 4, -2, 2)
        n2 = sum(x * x for x in q)
        ctx.assume(ctx.And(n2 > 0.25, n2 < 4))
    return p + q + v + w


def verify(ctx, tag, e, s, what='', unit=True):
    d = dict(zip(KEYS[tag], s))
    for k, w in d.items():
        if unit or not k.startswith('q'):
            ctx.close(f'{what}{k}', getattr(e, k), w)
    for k in ('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'):
        if k not in d:
            d[k] = 0.0
            ctx.close(f'{what}{k}', getattr(e, k), 0.0)
    ctx.closes(f'{what}position', ctx.flat(e.position), [(d[k], ) for k in 'xyz'])
    ctx.closes(f'{what}velocity', ctx.flat(e.velocity), [(d[k], ) for k in ('x_dot', 'y_dot', 'z_dot')])
    ctx.check(e.position.shape == (3, ) and e.velocity.shape == (3, ), f'{what}vectors have three components')
    M = e.orientation.as_matrix()
    if tag == 'cwh3d':
        for i in range(3):
            for j in range(3):
                ctx.close(f'{what}orientation[{i},{j}]', M[i, j], 1.0 if i == j else 0.0)
        return
    for k in ('wx', 'wy', 'wz'):
        if k not in d:
            d[k] = 0.0
            ctx.close(f'{what}{k}', getattr(e, k), 0.0)
    ctx.closes(f'{what}angular velocity', ctx.flat(e.angular_velocity), [(d[k], ) for k in ('wx', 'wy', 'wz')])
    Q = ctx.flat(e.quaternion)
    ctx.check(len(Q) == 4 and e.angular_velocity.shape == (3, ), f'{what}quaternion has four components, rates three')
    if tag.startswith('rot2d'):
        th = d['theta']
        R = [[(ctx.cos(th), ), (-ctx.sin(th), ), (0.0, )], [(ctx.sin(th), ), (ctx.cos(th), ), (0.0, )], [(0.0, ), (0.0, ), (1.0, )]]
        for i, n in enumerate(('q1', 'q2', 'q3', 'q4')):
            ctx.close(f'{what}{n} and quaternion', getattr(e, n), Q[i])
    else:
        q = [d['q1'], d['q2'], d['q3'], d['q4']]
        if unit:
            R = qrot(q)
            ctx.closes(f'{what}quaternion', Q, [(x, ) for x in q])
        else:
            r = 1 / sum(x * x for x in q)
            R = [[tuple(t * r for t in c) for c in row] for row in qrot(q)]
            for i in range(4):  # parallel to the stored one
                for j in range(i):
                    ctx.close(f'{what}quaternion direction {i}{j}', Q[i] * q[j], Q[j] * q[i])
    for i in range(3):
        for j in range(3):
            ctx.close(f'{what}orientation[{i},{j}]', M[i, j], *R[i][j])
    RQ = qrot(Q)
    for i in range(3):
        for j in range(3):
            ctx.close(f'{what}rotation of the quaternion read-out [{i},{j}]', total(RQ[i][j]), *R[i][j])
    ctx.close(f'{what}quaternion norm', sum(x * x for x in Q), 1.0)


def assigned(ctx, tag):
    e, s = KINDS[tag].make(ctx, **dict(zip(KEYS[tag], state(ctx, tag, 'ini')))), state(ctx, tag)
    e.state = ctx.arr(s)
    verify(ctx, tag, e, s)
    ctx.closes('state', ctx.flat(e.state), [(x, ) for x in s])


def built(ctx, tag):
    s = state(ctx, tag)
    verify(ctx, tag, KINDS[tag].make(ctx, **dict(zip(KEYS[tag], s))), s)


def unnormalised(ctx):
    """the attitude is that of the direction of the stored quaternion"""
    e, s = KINDS['sixdof'].make(ctx), state(ctx, 'sixdof', unit=False)
    e.state = ctx.arr(s)
    verify(ctx, 'sixdof', e, s, unit=False)
    for i, k in enumerate(('q1', 'q2', 'q3', 'q4')):
        ctx.close(k, getattr(e, k), s[3 + i])


def stepped(ctx, tag, method):
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method=method)
    s, u, end = kind.state(ctx), kind.control(ctx), kind.state(ctx, 'end')
    e.state = ctx.arr(s)
    ctx.set_ode(OdeStub(ctx, kind.n, end=end))
    e.step(ctx.real('dt', 0.01, 1) if method != 'Euler' else 0.5, ctx.arr(u))
    if method == 'Euler':
        now = ctx.flat(e.state)
        d = dict(zip(KEYS[tag], now))
        ctx.closes('position', ctx.flat(e.position), [(d.get(k, 0.0), ) for k in 'xyz'])
        ctx.closes('velocity', ctx.flat(e.velocity), [(d.get(k, 0.0), ) for k in ('x_dot', 'y_dot', 'z_dot')])
        for k, w in d.items():
            ctx.close(k, getattr(e, k), w)
        if tag != 'cwh3d':
            ctx.closes('angular velocity', ctx.flat(e.angular_velocity), [(d.get(k, 0.0), ) for k in ('wx', 'wy', 'wz')])
        return
    now = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}]', now[i], (end[i], ))
    verify(ctx, tag, e, now)


def again(ctx, tag):
    """everything is read, one component changes, everything is read again"""
    e, s = KINDS[tag].make(ctx), state(ctx, tag)
    e.state = ctx.arr(s)
    verify(ctx, tag, e, s)
    i = ctx.choice('which', list(range(len(s))))
    t = list(s)
    if KEYS[tag][i].startswith('q'):
        t[i] = -s[i]     # still a unit quaternion
    else:
        t[i] = s[i] + ctx.real('delta', -1e-3, 1e-3) if ctx.boolean('close') else state(ctx, tag, 'new')[i]
    e.state = ctx.arr(t)
    verify(ctx, tag, e, t, 'again: ')


def far(ctx, tag):
    """read-outs keep the precision of the state"""
    e, x = KINDS[tag].make(ctx), ctx.real('x', -1, 1)
    vals = dict(x=123456789.0, y=-987654321.0, z=55555555.5, x_dot=1234567.125, y_dot=-7654321.25, z_dot=333333.75, wx=0.1, wy=1 / 3, wz=-1 / 7, q4=1.0)
    d = {k: vals.get(k, 0.0) for k in KEYS[tag]}
    e.state = ctx.arr(list(d.values()))

    def exact(what, got, want):
        ctx.close(what, (got - want) * x, 0.0 * x, atol=1e-9)

    for k, w in d.items():
        exact(k, getattr(e, k), w)
    for i, g in enumerate(ctx.flat(e.state)):
        exact(f'state[{i}]', g, list(d.values())[i])
    for nm, ks in (('position', 'x y z'), ('velocity', 'x_dot y_dot z_dot')) + ((('angular_velocity', 'wx wy wz'), ) if tag != 'cwh3d' else ()):
        for g, k in zip(ctx.flat(getattr(e, nm)), ks.split()):
            exact(f'{nm}: {k}', g, d.get(k, 0.0))


def lead(ctx):
    a, b = KINDS['sixdof'].make(ctx, name='a'), KINDS['sixdof'].make(ctx, name='b')
    ctx.check(a.lead is None, 'no lead at first')
    a.register_lead(b)
    ctx.check(a.lead is b and b.lead is None, 'lead registered')


def cases(tier):
    out = [Case('unnormalised', unnormalised), Case('lead', lead)]
    for t in ('cwh3d', 'rot2d', 'rot2d-jax', 'sixdof'):
        out += [Case(f'assigned-{t}', assigned, dict(tag=t)), Case(f'built-{t}', built, dict(tag=t)), Case(f'again-{t}', again, dict(tag=t)), Case(f'far-{t}', far, dict(tag=t))]
        for m in ('RK45', 'Euler') + (('RK45_JAX', ) if 'jax' in t else ()):
            out.append(Case(f'stepped-{m}-{t}', stepped, dict(tag=t, method=m)))
    return out
