"""C34: Morelli's global polynomial aerodynamic model."""
from checks.common import *

BOUNDS = ('angle of attack within 180 deg, sideslip within 90 deg, elevator, aileron and rudder within 90 deg (so all 243 combinations of saturated and unsaturated '
          'arguments), rates within 20 rad/s, speeds 10..1e4, centre of gravity 0.1..0.6, two geometries; 60 neighbouring flight conditions in a row')

# name: [(coefficient, powers of alpha, beta, elevator, aileron, rudder)]
A, B, EL, AIL, RUD = range(5)


def poly(*rows):
    return rows


CX0 = poly((-1.943367e-2, 0, 0, 0), (2.136104e-1, 1, 0, 0), (-2.903457e-1, 0, 0, 2), (-3.348641e-3, 0, 0, 1), (-2.060504e-1, 1, 0, 1), (6.988016e-1, 2, 0, 0),
           (-9.035381e-1, 3, 0, 0))
CXQ = poly((4.833383e-1, 0, 0, 0), (8.644627, 1, 0, 0), (1.131098e1, 2, 0, 0), (-7.422961e1, 3, 0, 0), (6.075776e1, 4, 0, 0))
CY0B, CY0A, CY0R = -1.145916, 6.016057e-2, 1.642479e-1
CYP = poly((-1.006733e-1, 0, 0, 0), (8.679799e-1, 1, 0, 0), (4.260586, 2, 0, 0), (-6.923267, 3, 0, 0))
CYR = poly((8.071648e-1, 0, 0, 0), (1.189633e-1, 1, 0, 0), (4.177702, 2, 0, 0), (-9.162236, 3, 0, 0))
CZ0 = poly((-1.378278e-1, 0, 0, 0), (-4.211369, 1, 0, 0), (4.775187, 2, 0, 0), (-1.026225e1, 3, 0, 0), (8.399763, 4, 0, 0))
CZE = -4.354000e-1
CZQ = poly((-3.054956e1, 0, 0, 0), (-4.132305e1, 1, 0, 0), (3.292788e2, 2, 0, 0), (-6.848038e2, 3, 0, 0), (4.080244e2, 4, 0, 0))
CL0 = poly((-1.05853e-1, 0, 1, 0), (-5.776677e-1, 1, 1, 0), (-1.672435e-2, 2, 1, 0), (1.357256e-1, 0, 2, 0), (2.172952e-1, 1, 2, 0), (3.464156, 3, 1, 0),
           (-2.835451, 4, 1, 0), (-1.098104, 2, 2, 0))
CLP = poly((-4.126806e-1, 0, 0, 0), (-1.189974e-1, 1, 0, 0), (1.247721, 2, 0, 0), (-7.391132e-1, 3, 0, 0))
CLR = poly((6.250437e-2, 0, 0, 0), (6.067723e-1, 1, 0, 0), (-1.101964, 2, 0, 0), (9.100087, 3, 0, 0), (-1.192672e1, 4, 0, 0))
CLDA = poly((-1.463144e-1, 0, 0, 0), (-4.07391e-2, 1, 0, 0), (3.253159e-2, 0, 1, 0), (4.851209e-1, 2, 0, 0), (2.978850e-1, 1, 1, 0), (-3.746393e-1, 2, 1, 0),
            (-3.213068e-1, 3, 0, 0))
CLDR = poly((2.635729e-2, 0, 0, 0), (-2.192910e-2, 1, 0, 0), (-3.152901e-3, 0, 1, 0), (-5.817803e-2, 1, 1, 0), (4.516159e-1, 2, 1, 0), (-4.928702e-1, 3, 1, 0),
            (-1.579864e-2, 0, 2, 0))
CM0 = poly((-2.029370e-2, 0, 0, 0), (4.660702e-2, 1, 0, 0), (-6.012308e-1, 0, 0, 1), (-8.062977e-2, 1, 0, 1), (8.320429e-2, 0, 0, 2), (5.018538e-1, 2, 0, 1),
           (6.378864e-1, 0, 0, 3), (4.226356e-1, 1, 0, 2))
CMQ = poly((-5.19153, 0, 0, 0), (-3.554716, 1, 0, 0), (-3.598636e1, 2, 0, 0), (2.247355e2, 3, 0, 0), (-4.120991e2, 4, 0, 0), (2.411750e2, 5, 0, 0))
CN0 = poly((2.993363e-1, 0, 1, 0), (6.594004e-2, 1, 1, 0), (-2.003125e-1, 0, 2, 0), (-6.233977e-2, 1, 2, 0), (-2.107885, 2, 1, 0), (2.141420, 2, 2, 0),
           (8.476901e-1, 3, 1, 0))
CNP = poly((2.677652e-2, 0, 0, 0), (-3.298246e-1, 1, 0, 0), (1.926178e-1, 2, 0, 0), (4.013325, 3, 0, 0), (-4.404302, 4, 0, 0))
CNR = poly((-3.698756e-1, 0, 0, 0), (-1.167551e-1, 1, 0, 0), (-7.641297e-1, 2, 0, 0))
CNDA = poly((-3.348717e-2, 0, 0, 0), (4.276655e-2, 1, 0, 0), (6.573646e-3, 0, 1, 0), (3.535831e-1, 1, 1, 0), (-1.373308, 2, 1, 0), (1.237582, 3, 1, 0),
            (2.302543e-1, 2, 0, 0), (-2.512876e-1, 3, 0, 0), (1.588105e-1, 0, 3, 0), (-5.199526e-1, 1, 3, 0))
CNDR = poly((-8.115894e-2, 0, 0, 0), (-1.156580e-2, 1, 0, 0), (2.514167e-2, 0, 1, 0), (2.038748e-1, 1, 1, 0), (-3.337476e-1, 2, 1, 0), (1.004297e-1, 2, 0, 0))
LIMITS = ((-10, 45), (-30, 30), (-25, 25), (-21.5, 21.5), (-30, 30))
NAMES = ('alpha', 'beta', 'de', 'da', 'dr')
WIDE = (180, 90, 90, 90, 90)


def rad(d):
    return d * PI / 180


def published(a, b, de, da, dr, p, q, r, cbar, span, v, xcg, xcgref):
    """terms of the six coefficients"""
    pw = [[1.0, x, x * x, x * x * x, x * x * x * x, x * x * x * x * x] for x in (a, b, de)]

    def terms(rows, factor=None):
        out = []
        for c, i, j, k in rows:
            t = c * pw[0][i] * pw[1][j] * pw[2][k]
            out.append(t if factor is None else t * factor)
        return out

    ph, qh, rh = p * span / (2 * v), q * cbar / (2 * v), r * span / (2 * v)
    cx = terms(CX0) + terms(CXQ, qh)
    cy = [CY0B * b, CY0A * da, CY0R * dr] + terms(CYP, ph) + terms(CYR, rh)
    cz = terms(CZ0) + [-t * b * b for t in terms(CZ0)] + [CZE * de] + terms(CZQ, qh)
    cl = terms(CL0) + terms(CLP, ph) + terms(CLR, rh) + terms(CLDA, da) + terms(CLDR, dr)
    cm = terms(CM0) + terms(CMQ, qh) + [t * (xcgref - xcg) for t in cz]
    cn = terms(CN0) + terms(CNP, ph) + terms(CNR, rh) + terms(CNDA, da) + terms(CNDR, dr) + [-t * (xcgref - xcg) * cbar / span for t in cy]
    return cx, cy, cz, cl, cm, cn


def model(ctx, regions, geometry):
    """regions: -1 below, 0 inside, 1 above the bound, per argument (None: any)"""
    x = []
    for n, (lo, hi), w, k in zip(NAMES, LIMITS, WIDE, regions):
        lo, hi = rad(lo), rad(hi)
        if k == 0:
            x.append(ctx.real(n, lo, hi))
        elif k is None:
            x.append(ctx.real(n, -rad(w), rad(w)))
        else:
            x.append(ctx.real(n, hi, rad(w)) if k > 0 else ctx.real(n, -rad(w), lo))
    if None not in regions:
        for v, (lo, hi) in zip(x, LIMITS):  # the bounds themselves: cases all-*
            ctx.assume(ctx.And(v != rad(lo), v != rad(hi)))
    sat = [ctx.Max(rad(lo), ctx.Min(rad(hi), v)) for v, (lo, hi) in zip(x, LIMITS)]
    p, q, r = ctx.vec('w', 3, -20, 20)
    v, xcg = ctx.real('V', 10, 1e4), ctx.real('xcg', 0.1, 0.6)
    cbar, b = geometry
    got = fn2(ctx)(*x, p, q, r, cbar, b, v, xcg, 0.35)
    want = published(*sat, p, q, r, cbar, b, v, xcg, 0.35)
    ctx.check(len(got) == 6, 'six coefficients')
    for n, g, w in zip(('Cx', 'Cy', 'Cz', 'Cl', 'Cm', 'Cn'), got, want):
        ctx.close(n, g, *w)


def near(ctx):
    """flight conditions that differ a little"""
    p, q, r = ctx.vec('w', 3, -2, 2)
    for k, d in enumerate(offsets(6)):
        x = [0.3 + d * (k % 2), -0.1 + d * 0.7 * (k % 3 > 0), -0.05 + 0.2 * d * (k % 5 > 1), 0.1 + 0.2 * d * (k % 7 > 1), 0.03 - 0.2 * d * (k % 4 > 0)]
        v = 500 + 10 * d * (k % 2)
        got, want = fn2(ctx)(*x, p, q, r, 11.32, 30, v, 0.35, 0.35), published(*x, p, q, r, 11.32, 30, v, 0.35, 0.35)
        for n, a, w in zip(('Cx', 'Cy', 'Cz', 'Cl', 'Cm', 'Cn'), got, want):
            ctx.close(f'{n}, call {k}', a, *w, rel=1e-9, atol=1e-9)


def fn2(ctx):
    return ctx.mod('external.aerobench.lowlevel.morellif16').Morellif16


def cases(tier):
    f16, other = (11.32, 30), (9.5, 41.0)
    o = dict(fork_ite=True)
    out = [Case('inside', model, dict(regions=(0, 0, 0, 0, 0), geometry=f16), opts=o), Case('inside-other', model, dict(regions=(0, 0, 0, 0, 0), geometry=other), opts=o)]
    out.append(Case('near', near, opts=dict(max_decisions=20000)))
    for i, n in enumerate(NAMES):
        for k in (-1, 1):
            r = [0] * 5
            r[i] = k
            out.append(Case(f'{n}-{"above" if k > 0 else "below"}', model, dict(regions=tuple(r), geometry=f16), opts=o))
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            out.append(Case(f'all-{a}-{b}', model, dict(regions=(a, b, None, None, None), geometry=f16), opts=dict(o, witnesses=4)))
    return out
