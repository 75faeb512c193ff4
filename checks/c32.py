"""C32: F-16 rigid-body model."""
from checks.f16 import *

BOUNDS = ('every state of the envelope (speed 1..1e4, alpha within 6.3, beta within 3.1, heading within 100, roll and pitch within 20 (pitch derivatives: |cos pitch| > 1e-4), rates within 20, altitude '
          '-2000..100000, power 0..100), controls within their limits, arbitrary aerodynamic coefficients within 3, damping derivatives within 40, thrust within 3e4, '
          'dynamic pressure 0..5000; 30 neighbouring numeric flight conditions with arbitrary rates and the published lower levels')
S, B, CBAR, RM, XCG, XCGR, HE, G, RTOD, XA = 300, 30, 11.32, 1.57e-3, 0.35, 0.35, 160.0, 32.17, 57.29578, 15.0
C = [None, -.770, .02755, 1.055e-4, 1.642e-6, .9604, 1.759e-2, 1.792e-5, -.7336, 1.587e-5]
COEF = ('cx', 'cy', 'cz', 'cl', 'dlda', 'dldr', 'cm', 'cn', 'dnda', 'dndr')


class Lookups:
    """the lower levels as arbitrary functions"""

    def __init__(self, ctx, model):
        one = lambda n, lo, hi: Arbitrary(ctx, LOW + n, n, [ctx.real(n + '_v', lo, hi)])  # noqa: E731
        self.adc = Arbitrary(ctx, LOW + 'adc', 'adc', [ctx.real('mach_v', 0, 3), ctx.real('qbar_v', 0, 5000)], tuple)
        self.tgear, self.pdot, self.thrust = one('tgear', 0, 100), one('pdot', -500, 500), one('thrust', -3000, 30000)
        self.dampp = Arbitrary(ctx, LOW + 'dampp', 'dampp', ctx.vec('damp_v', 9, -40, 40), ctx.arr)
        self.all = [self.adc, self.tgear, self.pdot, self.thrust, self.dampp]
        if model == 'stevens':
            for n in COEF:
                setattr(self, n, one(n, -3, 3))
                self.all.append(getattr(self, n))
        else:
            self.morelli = Arbitrary(ctx, LOW + 'morellif16', 'Morellif16', ctx.vec('coef_v', 6, -3, 3), tuple)
            self.all.append(self.morelli)

    def coefficients(self, ctx, x, u, model):
        """terms of Cx, Cy, Cz, Cl, Cm, Cn before damping; also checks what the lower levels were asked"""
        a, b = x[1] * RTOD, x[2] * RTOD
        _, el, ail, rdr = u
        if model == 'stevens':
            da, dr = ail / 20, rdr / 30
            return ([self.cx.result(a, el)], [self.cy.result(b, ail, rdr)], [self.cz.result(a, b, el)],
                    [self.cl.result(a, b), self.dlda.result(a, b) * da, self.dldr.result(a, b) * dr], [self.cm.result(a, el)],
                    [self.cn.result(a, b), self.dnda.result(a, b) * da, self.dndr.result(a, b) * dr])
        k = PI / 180
        r = self.morelli.result(a * k, b * k, el * k, ail * k, rdr * k, x[6], x[7], x[8], CBAR, B, x[0], XCG, XCGR)
        return [[c] for c in r]


def dynamics(ctx, x, u, look, model):
    """(body force accelerations as term lists, moment coefficients, parts)"""
    vt, _, _, _, _, _, p, q, r = x[:9]
    mach, qbar = look.adc.result(vt, x[11])
    power = look.pdot.result(x[12], look.tgear.result(u[0]))
    t = look.thrust.result(x[12], x[11], mach)
    cx, cy, cz, cl, cm, cn = look.coefficients(ctx, x, u, model)
    d = ctx.flat(look.dampp.result(x[1] * RTOD))
    k = 0.5 / vt
    cq, b2v = CBAR * q * k, B * k
    cx = cx + [cq * d[0]]
    cy = cy + [b2v * d[1] * r, b2v * d[2] * p]
    cz = cz + [cq * d[3]]
    cl = cl + [b2v * d[4] * r, b2v * d[5] * p]
    cm = cm + [cq * d[6]] + [c * (XCGR - XCG) for c in cz]
    cn = cn + [b2v * d[7] * r, b2v * d[8] * p] + [-c * (XCGR - XCG) * CBAR / B for c in cy]
    return qbar, t, power, (cx, cy, cz, cl, cm, cn)


def body(ctx, x):
    ca, sa, cb, sb = ctx.cos(x[1]), ctx.sin(x[1]), ctx.cos(x[2]), ctx.sin(x[2])
    return x[0] * ca * cb, x[0] * sb, x[0] * sa * cb, cb


def forces(ctx, x, qbar, t, coef):
    """body-axis accelerations, as term lists"""
    u, v, w, _ = body(ctx, x)
    p, q, r = x[6:9]
    sth, cth, sph, cph = ctx.sin(x[4]), ctx.cos(x[4]), ctx.sin(x[3]), ctx.cos(x[3])
    f = RM * qbar * S
    return ([r * v, -q * w, -G * sth, RM * t] + [f * c for c in coef[0]], [p * w, -r * u, G * cth * sph] + [f * c for c in coef[1]],
            [q * u, -p * v, G * cth * cph] + [f * c for c in coef[2]])


def setup(ctx, model, adjust, part):
    x = flight_state(ctx, 13)
    u = [ctx.real('thr', 0, 1), ctx.real('el', -25, 25), ctx.real('ail', -21.5, 21.5), ctx.real('rdr', -30, 30)]
    look = Lookups(ctx, model)
    xa = ctx.arr(x)
    k = {} if adjust is None else dict(adjust_cy=adjust)
    with replaced(*look.all):
        got = ctx.mod(LOW + 'subf16_model').subf16_model(xa, ctx.arr(u) if part != 'list' else u, model, **k)
    return x, u, look, xa, got


class Value:

    def __init__(self, f):
        self.result = f


class Published:
    """the lower levels as published, for numbers"""

    def __init__(self, ctx):
        from checks import f16_tables as T
        from checks import c28, c29

        def cell(v, lo, w, n):
            i = min(max(int(math.floor((v - lo) / w)), 0), n - 1)
            return i, (v - lo - i * w) / w

        def grid(table, lo, w, n):

            def look(a, b):
                (j, f), (i, g) = cell(a, -10, 5, 11), cell(b, lo, w, n)
                return total_(c28.bilinear(table, j, f, i, g))

            return look

        def odd(table):
            g = grid(table, 0, 5, 6)
            return lambda a, b: g(a, abs(b)) * (1 if b >= 0 else -1)

        def cz(a, b, e):
            j, f = cell(a, -10, 5, 11)
            return (T.CZ[j] + f * (T.CZ[j + 1] - T.CZ[j])) * (1 - (b / 57.3)**2) - 0.19 * e / 25

        def damp(a):
            j, f = cell(a, -10, 5, 11)
            return ctx.arr([r[j] + f * (r[j + 1] - r[j]) for r in T.DAMPP])

        def adc(v, h):
            tf = 1 - 0.703e-5 * h
            return v / math.sqrt(1.4 * 1716.3 * (390.0 if h >= 35000 else 519 * tf)), 0.5 * 2.377e-3 * tf**4.14 * v * v

        def thrust(p, h, mach):
            (i, f), (m, g) = cell(h, 0, 10000, 5), cell(mach, 0, 0.2, 5)
            w = p / 50 if p < 50 else 2 - p / 50
            return w * total_(c29.at(T.MIL, i, m, f, g)) + (1 - w) * total_(c29.at(T.IDLE if p < 50 else T.MAX, i, m, f, g))

        def rate(p, c):
            t = (c if p >= 50 else 60.0) if c >= 50 else 40.0 if p >= 50 else c
            d = t - p
            return (5.0 if p >= 50 else 1.0 if d <= 25 else 0.1 if d >= 50 else 1.9 - 0.036 * d) * (t - p)

        from checks.c34 import published
        self.adc, self.thrust, self.pdot = Value(adc), Value(thrust), Value(rate)
        self.tgear = Value(lambda t: 64.94 * t if t <= 0.77 else 217.38 * t - 117.38)
        self.dampp = Value(damp)
        self.cx, self.cm = Value(grid(T.CX, -24, 12, 4)), Value(grid(T.CM, -24, 12, 4))
        self.cl, self.cn = Value(odd(T.CL)), Value(odd(T.CN))
        for n, t in (('dlda', T.DLDA), ('dldr', T.DLDR), ('dnda', T.DNDA), ('dndr', T.DNDR)):
            setattr(self, n, Value(grid(t, -30, 10, 6)))
        self.cz, self.cy = Value(cz), Value(lambda b, a, r: -0.02 * b + 0.021 * a / 20 + 0.086 * r / 30)
        self.morelli = Value(lambda *a: [total_(t) for t in published(*a)])

    coefficients = Lookups.coefficients


def near(ctx, model, adjust):
    """the whole model with its own lower levels, for flight conditions that differ a little"""
    p, q, r = ctx.vec('w', 3, -1, 1)
    look = Published(ctx)
    for k, d in enumerate(offsets(3)):
        b = lambda n: d if k % n else 0.0  # noqa: E731
        x = [510 + b(2), 0.21 + 0.05 * b(3), -0.11 + 0.1 * b(4), 0.4 + b(3), 0.15 + b(2), 0.8 + b(5), p, q, r, 1000 + b(2), -2000 + b(3), 6100 + 10 * b(2), 31 + b(5)]
        u = [0.35 + 0.1 * b(3), -3.1 + b(2), 4.2 + b(4), -5.3 + b(3)]
        xa = ctx.arr(x)
        got = ctx.mod(LOW + 'subf16_model').subf16_model(xa, ctx.arr(u), model, adjust_cy=adjust)
        equations(ctx, model, adjust, 'list', (x, u, look, xa, got))


def equations(ctx, model, adjust, part, given=None):
    x, u, look, xa, got = given or setup(ctx, model, adjust, part)
    ctx.check(len(got) == 5, 'five results')
    xd, nz, ny, az, ay = got
    xd = ctx.flat(xd)
    ctx.check(len(xd) == 13, '13 derivatives')
    qbar, t, power, coef = dynamics(ctx, x, u, look, model)
    cx, cy, cz, cl, cm, cn = coef
    vt, p, q, r = x[0], x[6], x[7], x[8]
    bu, bv, bw, cb = body(ctx, x)
    sth, cth, sph, cph, sps, cps = ctx.sin(x[4]), ctx.cos(x[4]), ctx.sin(x[3]), ctx.cos(x[3]), ctx.sin(x[5]), ctx.cos(x[5])
    if part in ('force', 'list'):
        fu, fv, fw = forces(ctx, x, qbar, t, coef)
        du, dv, dw = total_(fu), total_(fv), total_(fw)
        vd = (bu * du + bv * dv + bw * dw) / vt
        dum = bu * bu + bw * bw
        ctx.close('speed', xd[0], bu * du / vt, bv * dv / vt, bw * dw / vt)
        ctx.close('angle of attack', xd[1], bu * dw / dum, -bw * du / dum)
        ctx.close('sideslip', xd[2], vt * dv * cb / dum, -bv * vd * cb / dum)
        ctx.close('power', xd[12], power)
    if part in ('motion', 'list'):
        ctx.close('roll', xd[3], p, sth / cth * (q * sph), sth / cth * (r * cph))
        ctx.close('pitch', xd[4], q * cph, -r * sph)
        ctx.close('yaw', xd[5], q * sph / cth, r * cph / cth)
        qs = qbar * S
        ctx.close('roll acceleration', xd[6], C[2] * p * q, C[1] * r * q, C[4] * HE * q, *[qs * B * C[3] * c for c in cl], *[qs * B * C[4] * c for c in cn])
        ctx.close('pitch acceleration', xd[7], C[5] * p * r, -C[7] * HE * r, C[6] * r * r, -C[6] * p * p, *[qs * CBAR * C[7] * c for c in cm])
        ctx.close('yaw acceleration', xd[8], C[8] * p * q, -C[2] * r * q, C[9] * HE * q, *[qs * B * C[4] * c for c in cl], *[qs * B * C[9] * c for c in cn])
        ctx.close('north', xd[9], bu * cth * cps, bv * sph * cps * sth, -bv * cph * sps, bw * cph * sth * cps, bw * sph * sps)
        ctx.close('east', xd[10], bu * cth * sps, bv * sph * sps * sth, bv * cph * cps, bw * cph * sth * sps, -bw * sph * cps)
        ctx.close('climb', xd[11], bu * sth, -bv * sph * cth, -bw * cph * cth)
        f = RM * qs
        azt = [f * c for c in cz] + [-XA * C[5] * p * r, XA * C[7] * HE * r, -XA * C[6] * r * r, XA * C[6] * p * p] + [-XA * qs * CBAR * C[7] * c for c in cm]
        ayt = [f * c for c in cy]
        if adjust is not False:
            ayt += [XA * v for v in (C[8] * p * q, -C[2] * r * q, C[9] * HE * q)] + [XA * qs * B * C[4] * c for c in cl] + [XA * qs * B * C[9] * c for c in cn]
        ctx.close('normal acceleration', az, *azt)
        ctx.close('side acceleration', ay, *ayt)
        ctx.close('load factor', nz, -1.0, *[-v / G for v in azt])
        ctx.close('side load', ny, *[v / G for v in ayt])
    ctx.closes('state untouched', ctx.flat(xa), [(v, ) for v in x])


def refused(ctx):
    m = ctx.mod(LOW + 'subf16_model')
    x, u = flight_state(ctx, 13), [0.5, 0.0, 0.0, 0.0]
    ctx.expect_raise(lambda: m.subf16_model(ctx.arr(x), u, 'other'), 'AssertionError', 'unknown model')
    ctx.expect_raise(lambda: m.subf16_model(ctx.arr(x + [0.0]), u, 'stevens'), 'AssertionError', '14 states')
    ctx.expect_raise(lambda: m.subf16_model(ctx.arr(x), u[:3], 'stevens'), 'AssertionError', 'three controls')


def cases(tier):
    out = [Case('refused', refused)]
    for model in ('stevens', 'morelli'):
        for adjust in (None, True, False):
            for part in ('force', 'motion'):
                out.append(Case(f'{model}-{adjust}-{part}', equations, dict(model=model, adjust=adjust, part=part)))
        out += [Case(f'near-{model}-{adjust}', near, dict(model=model, adjust=adjust), opts=dict(max_decisions=20000)) for adjust in (True, False)]
        out.append(Case(f'{model}-list', equations, dict(model=model, adjust=None, part='list')))
    return out
