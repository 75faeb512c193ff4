"""C28: aerodynamic tables."""
from checks import f16_tables as T
from checks.common import *

BOUNDS = ('every angle of attack in [-10, 45] deg, elevator in [-24, 24] deg, sideslip in [-30, 30] deg, aileron in [-21.5, 21.5], rudder in [-30, 30] deg, split into all '
          'table cells; outside it every angle of attack in [-60, 120], elevator and sideslip up to 40 beyond their tables; 60 neighbouring conditions per table in a row')
LOW = 'external.aerobench.lowlevel.'


def fn(ctx, name):
    return getattr(ctx.mod(LOW + name), name)


def within(ctx, x, lo, width, last):
    """cell [lo, lo + width), the last one closed"""
    ctx.assume(ctx.And(x >= lo, x <= last if lo + width >= last else x < lo + width))


def alpha(ctx, lo, hi):
    """angle of attack in one of the closed cells lo..hi-1 (-1, 11: outside the table), with the interpolation weights per column"""
    j = ctx.choice('cell', list(range(lo, hi)))
    a = ctx.real('alpha', -60 if lo < 0 else -10, 120 if hi > 11 else 45)
    j = axis(ctx, a, j, -10, 5, 11, 75)
    f = (a - (-10 + 5 * j)) / 5
    return a, j, f


def axis(ctx, x, i, lo, width, n, beyond=40):
    """x in cell i of n; -1 and n are outside: there the outermost cell is continued"""
    hi = lo + n * width
    if i < 0:
        ctx.assume(ctx.And(x < lo, x >= lo - beyond))
        return 0
    if i >= n:
        ctx.assume(ctx.And(x > hi, x <= hi + beyond))
        return n - 1
    within(ctx, x, lo + i * width, width, hi)
    return i


def bilinear(t, j, f, i, g):
    """terms"""
    a, b, c, d = t[i][j], t[i][j + 1], t[i + 1][j], t[i + 1][j + 1]
    return (a + 0.0, f * (b - a), g * (c - a), f * g * (d - b - c + a))


def elevator(ctx, name, table, i, lo, hi):
    a, j, f = alpha(ctx, lo, hi)
    e = ctx.real('el', -64, 64)
    i = axis(ctx, e, i, -24, 12, 4)
    ctx.close(name, fn(ctx, name)(a, e), *bilinear(table, j, f, i, (e - (-24 + 12 * i)) / 12))


def odd(ctx, name, table, i, lo, hi, side):
    """rolling and yawing moment: table over |beta|, odd in beta"""
    a, j, f = alpha(ctx, lo, hi)
    b = ctx.real('beta', 0, 70)
    i = axis(ctx, b, i, 0, 5, 6)
    t = bilinear(table, j, f, i, (b - 5 * i) / 5)
    ctx.close(name, fn(ctx, name)(a, b if side > 0 else -b), *[side * x for x in t])


def sided(ctx, name, table, i, lo, hi):
    a, j, f = alpha(ctx, lo, hi)
    b = ctx.real('beta', -70, 70)
    i = axis(ctx, b, i, -30, 10, 6)
    ctx.close(name, fn(ctx, name)(a, b), *bilinear(table, j, f, i, (b - (-30 + 10 * i)) / 10))


def damping(ctx, lo, hi):
    a, j, f = alpha(ctx, lo, hi)
    d = fn(ctx, 'dampp')(a)
    ctx.closes('damping', ctx.flat(d), [(r[j] + 0.0, f * (r[j + 1] - r[j])) for r in T.DAMPP])


def cz(ctx, lo, hi):
    a, j, f = alpha(ctx, lo, hi)
    b, e = ctx.real('beta', -90, 90), ctx.real('el', -60, 60)
    z0, z1 = T.CZ[j], T.CZ[j + 1]
    k = 1 - (b / 57.3) * (b / 57.3)
    ctx.close('cz', fn(ctx, 'cz')(a, b, e), z0 * k, f * (z1 - z0) * k, -0.19 * e / 25)


def cy(ctx):
    b, a, r = ctx.real('beta', -90, 90), ctx.real('ail', -21.5, 21.5), ctx.real('rdr', -30, 30)
    ctx.close('cy', fn(ctx, 'cy')(b, a, r), -0.02 * b, 0.021 * a / 20, 0.086 * r / 30)


def near(ctx, name, table):
    """angles that differ a little"""
    g = ctx.real('g', 0.5, 1)
    f = fn(ctx, name)
    for k, d in enumerate(offsets(6)):
        a, b = 12.4 + d * (k % 2), -7.3 + d * (k % 3 > 0)
        j, w = 4, (a - 10) / 5
        if name == 'dampp':
            ctx.closes(f'damping, call {k}', [x * g for x in ctx.flat(f(a))], [((r[j] + 0.0) * g, w * g * (r[j + 1] - r[j])) for r in table])
            continue
        if name in ('cx', 'cm'):
            i, v, s = 1, (b + 12) / 12, 1
        elif name in ('cl', 'cn'):
            i, v, s = 1, (-b - 5) / 5, -1
        else:
            i, v, s = 2, (b + 10) / 10, 1
        ctx.close(f'{name}, call {k}', f(a, b) * g, *[s * g * x for x in bilinear(table, j, w, i, v)], rel=1e-9)


def near_forces(ctx):
    e = ctx.real('el', -20, 20)
    for k, d in enumerate(offsets(6)):
        a, b = 12.4 + d * (k % 2), -7.3 + d * (k % 3 > 0)
        w, n = (a - 10) / 5, 1 - (b / 57.3) * (b / 57.3)
        ctx.close(f'cz, call {k}', fn(ctx, 'cz')(a, b, e), T.CZ[4] * n, w * (T.CZ[5] - T.CZ[4]) * n, -0.19 * e / 25, rel=1e-9)
        ctx.close(f'cy, call {k}', fn(ctx, 'cy')(b, a, e), -0.02 * b, 0.021 * a / 20, 0.086 * e / 30, rel=1e-9)


def fix(ctx):
    u = ctx.mod('external.aerobench.util')
    x = ctx.real('x', -7.5, 7.5)
    r = u.fix(x)
    ctx.check(ctx.Implies(x >= 0, ctx.And(r <= x, x - 1 < r)), 'towards zero from above')
    ctx.check(ctx.Implies(x <= 0, ctx.And(r >= x, x + 1 > r)), 'towards zero from below')
    ctx.check(ctx.Or(*[r == k for k in range(-8, 9)]), 'integer')


def sign(ctx):
    u = ctx.mod('external.aerobench.util')
    x = ctx.real('x', -10, 10)
    r = u.sign(x)
    ctx.check(ctx.And(ctx.Iff(x > 0, r == 1), ctx.Iff(x < 0, r == -1), ctx.Iff(x == 0, r == 0)), 'sign')


def cases(tier):
    out = [Case('fix', fix), Case('sign', sign), Case('cy', cy)]
    out.append(Case('near-forces', near_forces))
    for n, t in (('cx', T.CX), ('cm', T.CM), ('cl', T.CL), ('cn', T.CN), ('dlda', T.DLDA), ('dldr', T.DLDR), ('dnda', T.DNDA), ('dndr', T.DNDR), ('dampp', T.DAMPP)):
        out.append(Case(f'near-{n}', near, dict(name=n, table=t)))
    o = dict(witnesses=6, eager_int=True)
    for lo, hi in ((0, 4), (4, 8), (8, 11)):
        p = dict(lo=lo, hi=hi)
        s = f'{lo}-{hi}'
        out.append(Case(f'dampp-{s}', damping, p, opts=o))
        out.append(Case(f'cz-{s}', cz, p, opts=o))
        for n, t in (('cx', T.CX), ('cm', T.CM)):
            out += [Case(f'{n}-{i}-{s}', elevator, dict(p, name=n, table=t, i=i), opts=o) for i in range(4)]
        for n, t in (('cl', T.CL), ('cn', T.CN)):
            out += [Case(f'{n}-{i}-{s}-{d}', odd, dict(p, name=n, table=t, i=i, side=d), opts=o) for i in range(6) for d in (1, -1)]
        for n, t in (('dlda', T.DLDA), ('dldr', T.DLDR), ('dnda', T.DNDA), ('dndr', T.DNDR)):
            out += [Case(f'{n}-{i}-{s}', sided, dict(p, name=n, table=t, i=i), opts=o) for i in range(6)]
    # outside the table
    for lo in (-1, 11):
        p, s = dict(lo=lo, hi=lo + 1), f'outside-{lo}'
        out.append(Case(f'dampp-{s}', damping, p, opts=o))
        out.append(Case(f'cz-{s}', cz, p, opts=o))
    for rows, f, names in ((4, elevator, (('cx', T.CX), ('cm', T.CM))), (6, odd, (('cl', T.CL), ('cn', T.CN))),
                           (6, sided, (('dlda', T.DLDA), ('dldr', T.DLDR), ('dnda', T.DNDA), ('dndr', T.DNDR)))):
        for n, t in names:
            for j, (lo, hi) in enumerate(((-1, 0), (0, 11) if tier == 'thorough' else (4, 6), (11, 12))):
                for i in range(-1, rows + 1):
                    if (f is odd and i < 0) or (j == 1 and 0 <= i < rows):
                        continue
                    for d in ((1, -1) if f is odd else (0, )):
                        q = j == 1 or (i == (rows if j == 0 else -1)) or i == 1 + j
                        out.append(Case(f'{n}-outside-{j}-{i}' + (f'-{d}' if d else ''), f, dict(lo=lo, hi=hi, name=n, table=t, i=i, **(dict(side=d) if d else {})), opts=o,
                                        tier='quick' if q else 'thorough'))
    return out
