"""C39: safety verdict."""
import itertools

from checks.f16 import *

BOUNDS = ('every value (altitude -1e4..2e5, load factor within 200, speed -1e4..1e5, alpha within 100, roll rate within 200 rad/s, sideslip within 100) over 1, 2 or 4 ticks '
          '(thorough 7) with any bounds; histories of 300 and 1200 ticks that are fixed and safe except at one of 10 (8) positions, where any value; limits none, each alone, all pairs, all; with and without controller; a value that is not a number at one of up to 3 ticks; values within 1e-9 (relative) of a bound in degrees excluded')
LIM = dict(altitude=(-1e4, 2e5), Nz=(-200, 200), v=(-1e4, 1e5), alpha=(-100, 100), psMaxAccelDeg=(-12000, 12000), betaMaxDeg=(-6000, 6000))
DEG = 180 / PI


def limits(ctx, names):
    out = {}
    for n in names:
        lo, hi = LIM[n]
        out[n] = (ctx.real(n + '_lo', lo, hi), ctx.real(n + '_hi', lo, hi)) if n[-3:] != 'Deg' else ctx.real(n + '_max', lo, hi)
    return out


def safe(ctx, lim, x, nz, ps):
    vals = dict(altitude=x[11], Nz=nz, v=x[0], alpha=x[1], psMaxAccelDeg=ps * DEG, betaMaxDeg=x[2] * DEG)
    out = []
    for n, b in lim.items():
        v = vals[n]
        if n[-3:] == 'Deg':
            ctx.assume(ctx.Or(v - b > 1e-6, b - v > 1e-6))
            out.append(v <= b)
        else:
            out.append(ctx.And(b[0] <= v, v <= b[1]))
    return out


def tick(ctx, k):
    x = ctx.vec(f'x{k}_', 13, -50, 50)
    x[0], x[1], x[2], x[11] = ctx.real(f'v{k}', -1e4, 1e5), ctx.real(f'alpha{k}', -100, 100), ctx.real(f'beta{k}', -100, 100), ctx.real(f'alt{k}', -1e4, 2e5)
    return x, ctx.real(f'nz{k}', -200, 200), ctx.real(f'ps{k}', -200, 200)


def verdict(ctx, names, ticks, with_llc, extra):
    u = ctx.mod(AB + 'util')
    lim = limits(ctx, names)
    data = [tick(ctx, k) for k in range(ticks)]
    ok = []
    for x, nz, ps in data:
        ok += safe(ctx, lim, x, nz, ps)
    rows = [list(x) + [7e8] * extra for x, _, _ in data]
    states = ctx.arr(rows)
    res = dict(states=states, Nz_list=[d[1] for d in data], ps_list=[d[2] for d in data])
    v = u.SafetyLimitsVerifier(u.SafetyLimits(**lim), llc(ctx) if with_llc else None)
    got = ctx.raises(lambda: v.verify(res))
    want = ctx.And(*ok) if ok else True
    if got is None:
        ctx.check(want, 'passes only when every limit holds')
    else:
        ctx.check('AssertionError' in got, f'refusal is an assertion, not {got[0]}')
        ctx.check(ctx.Not(want), 'refuses only when a limit is broken')
    ctx.closes('states untouched', ctx.flat(states), [(e, ) for r in rows for e in r])


def many(ctx, names, ticks, at, with_llc):
    """a long history, safe everywhere except perhaps at one instant"""
    u = ctx.mod(AB + 'util')
    lim = limits(ctx, names)
    calm = [0.0] * 13
    calm[0], calm[1], calm[11] = 500.0, 0.05, 3000.0
    ctx.assume(ctx.And(*safe(ctx, lim, calm, 0.5, 0.01)))
    k = ctx.choice('k', at)
    x, nz, ps = tick(ctx, 0)
    rows, nzs, pss = [list(calm) for _ in range(ticks)], [0.5] * ticks, [0.01] * ticks
    rows[k], nzs[k], pss[k] = list(x), nz, ps
    want = ctx.And(*safe(ctx, lim, x, nz, ps))
    res = dict(states=ctx.arr([r + [0.0] * (3 if with_llc else 0) for r in rows]), Nz_list=nzs, ps_list=pss)
    v = u.SafetyLimitsVerifier(u.SafetyLimits(**lim), llc(ctx) if with_llc else None)
    got = ctx.raises(lambda: v.verify(res))
    if got is None:
        ctx.check(want, 'passes only when every limit holds throughout')
    else:
        ctx.check('AssertionError' in got, f'refusal is an assertion, not {got[0]}')
        ctx.check(ctx.Not(want), 'refuses only when a limit is broken')


def ignored(ctx):
    """limits given as None are not limits"""
    u = ctx.mod(AB + 'util')
    x, nz, ps = tick(ctx, 0)
    res = dict(states=ctx.arr([list(x)]), Nz_list=[nz], ps_list=[ps])
    for lim in ({}, {k: None for k in LIM}):
        ctx.check(u.SafetyLimitsVerifier(u.SafetyLimits(**lim)).verify(res) is None, 'no limits, always safe')


def insane(ctx):
    u = ctx.mod(AB + 'util')
    x, nz, ps = tick(ctx, 0)
    for extra, with_llc in ((1, False), (1, True)):
        res = dict(states=ctx.arr([list(x) + [0.0] * extra]), Nz_list=[nz], ps_list=[ps])
        v = u.SafetyLimitsVerifier(u.SafetyLimits(), llc(ctx) if with_llc else None)
        ctx.expect_raise(lambda v=v, res=res: v.verify(res), 'AssertionError', 'wrong number of state variables')


def undefined(ctx, name, ticks, at):
    """a value that is not a number is not within its limit"""
    u = ctx.mod(AB + 'util')
    lim = limits(ctx, [name])
    data = [tick(ctx, k) for k in range(ticks)]
    rows, nzs, pss = [list(d[0]) for d in data], [d[1] for d in data], [d[2] for d in data]
    for x, nz, ps in data:
        ctx.assume(ctx.And(*safe(ctx, lim, x, nz, ps)))
    nan = float('nan')
    if name == 'Nz':
        nzs[at] = nan
    elif name == 'psMaxAccelDeg':
        pss[at] = nan
    else:
        rows[at][dict(altitude=11, v=0, alpha=1, betaMaxDeg=2)[name]] = nan
    v = u.SafetyLimitsVerifier(u.SafetyLimits(**lim))
    got = ctx.raises(lambda: v.verify(dict(states=ctx.arr(rows), Nz_list=nzs, ps_list=pss)))
    ctx.check(got is not None and 'AssertionError' in got, 'a value that is not a number is refused')


def cases(tier):
    out = [Case('ignored', ignored), Case('insane', insane)]
    for n in LIM:
        out += [Case(f'undefined-{n}-{t}-{a}', undefined, dict(name=n, ticks=t, at=a)) for t, a in ((1, 0), (3, 1))]
    names = list(LIM)
    one = [(n, ) for n in names]
    pairs = list(itertools.combinations(names, 2))
    for c in one:
        for t in (1, 2):
            out.append(Case(f'{"+".join(c)}-{t}', verdict, dict(names=c, ticks=t, with_llc=False, extra=0)))
        out.append(Case(f'{"+".join(c)}-llc', verdict, dict(names=c, ticks=2, with_llc=True, extra=3)))
        out.append(Case(f'{"+".join(c)}-4', verdict, dict(names=c, ticks=4, with_llc=True, extra=3)))
        out.append(Case(f'{"+".join(c)}-7', verdict, dict(names=c, ticks=7, with_llc=False, extra=0), tier='thorough'))
    for c in pairs:
        out.append(Case(f'{"+".join(c)}', verdict, dict(names=c, ticks=1, with_llc=False, extra=0)))
        out.append(Case(f'{"+".join(c)}-2', verdict, dict(names=c, ticks=2, with_llc=True, extra=3)))
    for c in one:
        out.append(Case(f'{"+".join(c)}-300', many, dict(names=c, ticks=300, at=(0, 1, 98, 127, 128, 150, 255, 256, 298, 299), with_llc=True), opts=dict(max_decisions=20000)))
        out.append(Case(f'{"+".join(c)}-1200', many, dict(names=c, ticks=1200, at=(0, 499, 701, 998, 999, 1000, 1024, 1199), with_llc=False), tier='quick' if c[0] in ('altitude', 'psMaxAccelDeg') else 'thorough', opts=dict(max_decisions=20000)))
    out.append(Case('all-1', verdict, dict(names=names, ticks=1, with_llc=False, extra=0)))
    out.append(Case('all-2', verdict, dict(names=names, ticks=2, with_llc=True, extra=3)))
    return out
