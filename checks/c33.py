"""C33: conservation in the F-16 kinematics."""
from checks.c32 import S, RM, G, body, dynamics, setup
from checks.f16 import *

BOUNDS = ('every state of the envelope (speed 1..1e4, alpha within 6.3, beta within 3.1 (flow angles: |cos beta| > 0.01), heading within 100, roll and pitch within 20 (pitch derivatives: |cos pitch| > 1e-4), rates within 20), arbitrary '
          'aerodynamic coefficients, damping, thrust and dynamic pressure; 60 neighbouring flight conditions with arbitrary rates')


def earth_speed(ctx, model):
    x, u, look, xa, got = setup(ctx, model, None, 'force')
    d = ctx.flat(got[0])
    ctx.close('Earth-frame speed is airspeed', d[9] * d[9] + d[10] * d[10] + d[11] * d[11], x[0] * x[0], rel=1e-5)


def near(ctx, model):
    """the kinematics of flight conditions that differ a little"""
    p, q, r = ctx.vec('w', 3, -1, 1)
    for k, d in enumerate(offsets(6)):
        b = lambda n: d if k % n else 0.0  # noqa: E731
        x = [510 + b(2), 0.21 + 0.05 * b(3), -0.11 + 0.1 * b(4), 2.4 + b(3), -0.15 + b(2), 0.8 + b(5), p, q, r, 1000 + b(2), -2000 + b(3), 6100 + 10 * b(2), 31 + b(5)]
        xd = ctx.flat(ctx.mod(LOW + 'subf16_model').subf16_model(ctx.arr(x), ctx.arr([0.35, -3.1 + b(2), 4.2, -5.3]), model)[0])
        ctx.close(f'Earth-frame speed, call {k}', xd[9] * xd[9] + xd[10] * xd[10] + xd[11] * xd[11], x[0] * x[0], rel=1e-8)
        sth, cth, sph, cph = math.sin(x[4]), math.cos(x[4]), math.sin(x[3]), math.cos(x[3])
        ctx.close(f'roll rate, call {k}', xd[3] - xd[5] * sth, p, 0.0, atol=1e-9)
        ctx.close(f'pitch rate, call {k}', xd[4] * cph + xd[5] * cth * sph, q, 0.0, atol=1e-9)
        ctx.close(f'yaw rate, call {k}', xd[5] * cth * cph - xd[4] * sph, r, 0.0, atol=1e-9)


def rates(ctx, model):
    x, u, look, xa, got = setup(ctx, model, None, 'force')
    d = ctx.flat(got[0])
    sth, cth, sph, cph = ctx.sin(x[4]), ctx.cos(x[4]), ctx.sin(x[3]), ctx.cos(x[3])
    ctx.assume(ctx.Or(cth > 1e-4, cth < -1e-4))    # Euler angles are singular pointing straight up or down
    ctx.close('roll rate', d[3] - d[5] * sth, x[6], 0.0 * d[5], rel=1e-5, atol=1e-5)
    ctx.close('pitch rate', d[4] * cph + d[5] * cth * sph, x[7], rel=1e-5, atol=1e-5)
    ctx.close('yaw rate', d[5] * cth * cph - d[4] * sph, x[8], rel=1e-5, atol=1e-5)


def energy(ctx, model):
    """V dV/dt = -g dh/dt + work of aerodynamic force and thrust: Coriolis terms do no work"""
    x, u, look, xa, got = setup(ctx, model, None, 'force')
    d = ctx.flat(got[0])
    qbar, t, _, coef = dynamics(ctx, x, u, look, model)
    bu, bv, bw, _ = body(ctx, x)
    f = RM * qbar * S
    terms = [-G * d[11], RM * t * bu]
    for b, c in zip((bu, bv, bw), coef):
        terms += [f * b * k for k in c]
    ctx.close('power balance', d[0] * x[0], *terms, rel=1e-5, atol=1e-4)


def flow_angles(ctx, model):
    """speed, attack and sideslip rates reproduce the body-axis acceleration"""
    x, u, look, xa, got = setup(ctx, model, None, 'force')
    d = ctx.flat(got[0])
    sa, ca, sb, cb = ctx.sin(x[1]), ctx.cos(x[1]), ctx.sin(x[2]), ctx.cos(x[2])
    ctx.assume(ctx.Or(cb > 0.01, cb < -0.01))
    qbar, t, _, coef = dynamics(ctx, x, u, look, model)
    from checks.c32 import forces
    fu, fv, fw = forces(ctx, x, qbar, t, coef)
    v = x[0]
    ctx.close('forward', d[0] * ca * cb - v * sa * cb * d[1] - v * ca * sb * d[2], *fu, rel=1e-4, atol=1e-3)
    ctx.close('sideways', d[0] * sb + v * cb * d[2], *fv, rel=1e-4, atol=1e-3)
    ctx.close('down', d[0] * sa * cb + v * ca * cb * d[1] - v * sa * sb * d[2], *fw, rel=1e-4, atol=1e-3)


def heading(ctx):
    """turning the aircraft about the vertical turns its ground velocity and changes nothing else"""
    m = ctx.mod(LOW + 'subf16_model')
    x = flight_state(ctx, 13)
    u = [ctx.real('thr', 0, 1), ctx.real('el', -25, 25), ctx.real('ail', -21.5, 21.5), ctx.real('rdr', -30, 30)]
    from checks.c32 import Lookups
    turn = ctx.real('turn', -3, 3)
    y = list(x)
    y[5] = x[5] + turn
    y[9], y[10] = ctx.real('n', -1e5, 1e5), ctx.real('e', -1e5, 1e5)
    look = Lookups(ctx, 'morelli')
    with replaced(*look.all):
        a = m.subf16_model(ctx.arr(x), u, 'morelli')
        b = m.subf16_model(ctx.arr(y), u, 'morelli')
    da, db = ctx.flat(a[0]), ctx.flat(b[0])
    for i in range(13):
        if i not in (9, 10):
            ctx.close(f'derivative {i}', db[i], da[i])
    for p, q in zip(a[1:], b[1:]):
        ctx.close('load', q, p)
    c, s = ctx.cos(turn), ctx.sin(turn)
    ctx.close('north', db[9], c * da[9], -s * da[10], rel=1e-5)
    ctx.close('east', db[10], s * da[9], c * da[10], rel=1e-5)


def cases(tier):
    out = [Case('heading', heading)]
    for model in ('stevens', 'morelli'):
        out.append(Case(f'near-{model}', near, dict(model=model), opts=dict(max_decisions=20000)))
        for f in (earth_speed, rates, energy, flow_angles):
            out.append(Case(f'{f.__name__}-{model}', f, dict(model=model)))
    return out
