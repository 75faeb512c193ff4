"""C19: aircraft read-outs are mutually consistent."""
from checks.common import *

BOUNDS = ('every heading and roll in [-20, 20], gamma in [-10, 10] (built from arguments: 3.2 and 1.6), speed from 0.01 to 5000 either way, positions within 1e6, acceleration within 200; after state '
          'assignment, after each component assignment, and after an Euler step and a solve_ivp step with an arbitrary result')

COMP = dict(dub2d=('x', 'y', 'heading', 'v'), dub3d=('x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'))


def state(ctx, tag, name='s', turn=1.0):
    p = ctx.vec(name + 'p', 2 if tag == 'dub2d' else 3, -1e6, 1e6)
    h, v = ctx.real(name + 'h', -20 * turn, 20 * turn), ctx.real(name + 'v', -5000, 5000)
    ctx.assume(ctx.Or(v >= 0.01, v <= -0.01))
    if tag == 'dub2d':
        return p + [h, v]
    return p + [h, ctx.real(name + 'g', -10 * turn, 10 * turn), ctx.real(name + 'r', -20 * turn, 20 * turn), v]


def split(tag, s):
    if tag == 'dub2d':
        return [s[0], s[1], 0.0], s[2], 0.0, 0.0, s[3]
    return list(s[:3]), s[3], s[4], s[5], s[6]


def verify(ctx, tag, e, s, acc=None, what=''):
    """every read-out against the state (and the acceleration along the path)"""
    p, h, g, r, v = split(tag, s)
    for n, w in zip('xyz', p):
        ctx.close(f'{what}{n}', getattr(e, n), w)
    ctx.closes(f'{what}position', ctx.flat(e.position), [(w, ) for w in p])
    for n, w in (('heading', h), ('yaw', h), ('gamma', g), ('pitch', g), ('roll', r), ('v', v)):
        ctx.close(f'{what}{n}', getattr(e, n), w)
    nose = [ctx.cos(h) * ctx.cos(g), ctx.sin(h) * ctx.cos(g), -ctx.sin(g)]
    vel = ctx.flat(e.velocity)
    ctx.closes(f'{what}velocity', vel, [(v * n, ) for n in nose])
    ctx.close(f'{what}speed squared', sum(x * x for x in vel), v * v)
    R = e.orientation
    ctx.closes(f'{what}nose along velocity', ctx.flat(R.apply(ctx.arr([1.0, 0.0, 0.0]))), [(n, ) for n in nose])
    M = R.as_matrix()
    cr, sr, ch, sh, cg, sg = ctx.cos(r), ctx.sin(r), ctx.cos(h), ctx.sin(h), ctx.cos(g), ctx.sin(g)
    want = [[ch * cg, ch * sg * sr - sh * cr, ch * sg * cr + sh * sr], [sh * cg, sh * sg * sr + ch * cr, sh * sg * cr - ch * sr], [-sg, cg * sr, cg * cr]]
    for i in range(3):
        for j in range(3):
            ctx.close(f'{what}orientation[{i},{j}]', M[i, j], want[i][j])
    if acc is not None:
        a = ctx.flat(e.acceleration)
        ctx.closes(f'{what}acceleration', a, [(acc * n, ) for n in nose])


def assigned(ctx, tag):
    e = KINDS[tag].make(ctx, **dict(zip(COMP[tag], state(ctx, tag, 'ini'))))
    s, d = state(ctx, tag), ctx.vec('d', KINDS[tag].n, -200, 200)
    e.state = ctx.arr(s)
    verify(ctx, tag, e, s, 0.0, 'before stepping: ')
    e.state_dot = ctx.arr(d)
    verify(ctx, tag, e, s, d[-1])
    ctx.closes('state', ctx.flat(e.state), [(x, ) for x in s])


def built(ctx, tag):
    """from constructor arguments, and defaults"""
    ctx.rel, ctx.atol = 1e-5, 2e-3  # the state is built in single precision
    s = state(ctx, tag, turn=0.16)
    verify(ctx, tag, KINDS[tag].make(ctx, **dict(zip(COMP[tag], s))), s, 0.0)


def setters(ctx, tag):
    """assigning one component changes exactly that component"""
    e = KINDS[tag].make(ctx)
    s, new, d = state(ctx, tag), state(ctx, tag, 'n'), ctx.vec('d', KINDS[tag].n, -200, 200)
    e.state = ctx.arr(s)
    e.state_dot = ctx.arr(d)
    verify(ctx, tag, e, s, d[-1], 'before setting: ')
    for i, k in enumerate(COMP[tag]):
        setattr(e, k, new[i])
        s[i] = new[i]
        ctx.closes(f'state after setting {k}', ctx.flat(e.state), [(x, ) for x in s])
        ctx.close(f'{k} after setting it', getattr(e, k), new[i])
        ctx.closes(f'derivative after setting {k}', ctx.flat(e.state_dot), [(x, ) for x in d])
    verify(ctx, tag, e, s, d[-1], 'after setting: ')


def readonly(ctx, tag):
    """components that are derived cannot be assigned, and a refused assignment changes nothing"""
    e = KINDS[tag].make(ctx)
    s = state(ctx, tag)
    e.state = ctx.arr(s)
    v = ctx.real('new', -1, 1)
    names = ['yaw', 'pitch', 'position', 'velocity', 'acceleration', 'orientation']
    if tag == 'dub2d':
        names += ['z', 'gamma', 'roll']
    for k in names:
        ctx.expect_raise(lambda k=k: setattr(e, k, v), 'AttributeError', f'setting {k}')
    ctx.closes('state', ctx.flat(e.state), [(x, ) for x in s])


def copies(ctx, tag):
    """writing into a returned vector does not move the aircraft"""
    e = KINDS[tag].make(ctx)
    s, k = state(ctx, tag), ctx.real('k', -100, 100)
    e.state = ctx.arr(s)
    for n in ('position', 'velocity'):
        getattr(e, n)[0] = k
    e.state[0] = k
    verify(ctx, tag, e, s, None, 'after writing into read-outs: ')


def stepped(ctx, tag, method):
    kind = KINDS[tag]
    e = kind.make(ctx, method=method)
    s, u = kind.state(ctx), kind.control(ctx)
    h = ctx.real('dt', 0.01, 1)
    e.state = ctx.arr(s)
    end = kind.state(ctx, 'end')
    stub = OdeStub(ctx, kind.n, end=end)
    ctx.set_ode(stub)
    e.step(h, ctx.arr(u))
    now = ctx.flat(e.state)
    if method == 'RK45':
        acc = kind.limited(ctx, end, u)[-1]
        for i, x in enumerate(end):
            if kind.wrap[i]:
                turns_close(ctx, f'state[{i}]', now[i], x, 1e-5)
            else:
                ctx.close(f'state[{i}]', now[i], x, rel=3e-6)
        verify(ctx, tag, e, now, acc)
    else:
        p, hd, g, r, v = split(tag, now)
        acc = ctx.flat(e.state_dot)[-1]
        nose = [ctx.cos(hd) * ctx.cos(g), ctx.sin(hd) * ctx.cos(g), -ctx.sin(g)] if tag != 'dub2d' else [ctx.cos(hd), ctx.sin(hd), 0.0]
        ctx.closes('velocity', ctx.flat(e.velocity), [(v * n, ) for n in nose])
        ctx.closes('acceleration', ctx.flat(e.acceleration), [(acc * n, ) for n in nose])
        ctx.closes('position', ctx.flat(e.position), [(x, ) for x in p])


def partner(ctx):
    a, b = KINDS['dub2d'].make(ctx, name='a'), KINDS['dub3d'].make(ctx, name='b')
    ctx.check(a.partner is None, 'no partner at first')
    a.register_partner(b)
    ctx.check(a.partner is b, 'partner registered')
    ctx.check(b.partner is None, 'the partner itself has no partner')
    v = ctx.real('v', 200, 400)
    b.v = v
    ctx.close('speed read through the partner', a.partner.v, v)


def cases(tier):
    out = [Case('partner', partner)]
    for t in ('dub2d', 'dub3d'):
        for f in (assigned, built, setters, readonly, copies):
            out.append(Case(f'{f.__name__}-{t}', f, dict(tag=t)))
        for m in ('RK45', 'Euler'):
            out.append(Case(f'stepped-{m}-{t}', stepped, dict(tag=t, method=m)))
    return out
