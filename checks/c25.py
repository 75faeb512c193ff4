"""C25: entity equality means same kind and same physical state."""
from checks.common import *
from checks import c19, c20

BOUNDS = ('every pair of states (positions within 1e6, velocities within 1e4, planar and heading angles within 3.1, gamma within 1.5, roll within 3.1, every '
          'unit quaternion, rates within 1, speeds in [20, 1500], accelerations within 100) that are equal, or differ in one chosen '
          'component while all others are arbitrary; all pairs of classes; 5 foreign objects')
D = 1e-2


def state(ctx, tag, name):
    if tag.startswith('dub'):
        n = 3 if tag == 'dub3d' else 2
        s = ctx.vec(name + 'p', n, -1e6, 1e6) + [ctx.real(name + 'h', -3.1, 3.1)]
        if n == 3:
            s += [ctx.real(name + 'g', -1.5, 1.5), ctx.real(name + 'r', -3.1, 3.1)]
        return s + [ctx.real(name + 'v', 20, 1500)]
    if tag.startswith('int'):
        d = int(tag[3])
        return ctx.vec(name + 'p', d, -1e6, 1e6) + ctx.vec(name + 'v', d, -1e4, 1e4)
    p, v, w = ctx.vec(name + 'p', 3, -1e6, 1e6), ctx.vec(name + 'v', 3, -1e4, 1e4), ctx.vec(name + 'w', 3, -1, 1)
    if tag == 'cwh3d':
        return p + v
    if tag.startswith('rot2d'):
        return p[:2] + [ctx.real(name + 'th', -3.1, 3.1)] + v[:2] + w[:1]
    return p + ctx.unit_quat(name + 'q') + v + w


def gap(tag, k):
    """smallest difference considered; the velocity of an aircraft is read in single precision"""
    return D if tag.startswith('dub') and k >= KINDS[tag].n - 1 else 1e-7


def put(ctx, tag, e, s, acc=None):
    e.state = ctx.arr(list(s))
    if acc is not None:
        e.state_dot = ctx.arr([0.5] * (KINDS[tag].n - 1) + [acc])


def boolean(ctx, r):
    """truth of a comparison result"""
    return r[()] if type(r).__module__ == 'numpy' and hasattr(r, 'shape') or type(r).__name__ == 'SymArr' else r


def equal(ctx, tag, air):
    """same physical state: equal, whatever the name, configuration or history"""
    kind = KINDS[tag]
    s = state(ctx, tag, 's')
    acc = ctx.real('acc', -100, 100) if air else None
    other = dict(trajectory_samples=3) if not tag.startswith('sun') else {}
    a, b = kind.make(ctx, name='a'), kind.make(ctx, name='b', method='Euler', **other)
    put(ctx, tag, a, s, acc)
    put(ctx, tag, b, s, acc)
    ctx.check(boolean(ctx, a == b), 'equal states, equal entities')
    ctx.check(boolean(ctx, b == a), 'equal states, equal entities (swapped)')
    ctx.check(boolean(ctx, a == a), 'reflexive')  # noqa: PLR0124
    ctx.check(ctx.Not(boolean(ctx, a != b)), 'not unequal')


def differ(ctx, tag, k, air):
    """one component differs; everything else arbitrary"""
    kind = KINDS[tag]
    s, r = state(ctx, tag, 's'), state(ctx, tag, 'r')
    sa, ra = (ctx.real('sacc', -100, 100), ctx.real('racc', -100, 100)) if air else (None, None)
    x, y = (s[k], r[k]) if k < kind.n else (sa, ra)
    d = gap(tag, k)
    ctx.assume(ctx.Or(x - y > d, y - x > d))
    a, b = kind.make(ctx, name='a'), kind.make(ctx, name='a')
    put(ctx, tag, a, s, sa)
    put(ctx, tag, b, r, ra)
    ab, ba = boolean(ctx, a == b), boolean(ctx, b == a)
    ctx.check(ctx.Not(ab), 'different states, different entities')
    ctx.check(ctx.Not(ba), 'different states, different entities (swapped)')


def alone(ctx, tag, k, air):
    """exactly one component differs"""
    kind = KINDS[tag]
    s = state(ctx, tag, 's')
    acc = ctx.real('acc', -100, 100) if air else None
    d = ctx.real('d', 0.05 if gap(tag, k) == D else 1e-7, 0.1)
    up = ctx.boolean('up')
    r = list(s)
    acc2 = acc
    if k < kind.n:
        r[k] = s[k] + d if up else s[k] - d
    else:
        acc2 = acc + d * 100
    if tag == 'dub3d' and k in (4, ):
        ctx.assume(ctx.And(s[k] < 1.4, s[k] > -1.4))
    if k < kind.n and kind.wrap[k] or tag == 'dub3d' and k == 5:
        ctx.assume(ctx.And(s[k] < 3.0, s[k] > -3.0))
    a, b = kind.make(ctx, name='a'), kind.make(ctx, name='a')
    put(ctx, tag, a, s, acc)
    put(ctx, tag, b, r, acc2)
    ctx.check(ctx.Not(boolean(ctx, a == b)), 'different states, different entities')
    ctx.check(ctx.Not(boolean(ctx, b == a)), 'different states, different entities (swapped)')


class Foreign:
    pass


def unrelated(ctx, tag):
    kind = KINDS[tag]
    a = kind.make(ctx)
    if tag.startswith('sun'):
        x = ctx.real('x', -1, 1)
        a.state = ctx.arr([x])
    else:
        s = state(ctx, tag, 's')
        put(ctx, tag, a, s)
    for t, k in KINDS.items():
        if t.split('-')[0] == tag.split('-')[0]:
            continue
        b = k.make(ctx)
        for p, q in ((a, b), (b, a)):
            ctx.check(ctx.Not(boolean(ctx, p == q)), f'{tag} equals {t}')
    for o in (None, 3, 'e', Foreign(), [1, 2]):
        ctx.check(ctx.Not(boolean(ctx, a == o)), f'equals {type(o).__name__}')
        ctx.check(ctx.Not(boolean(ctx, o == a)), f'{type(o).__name__} equals it')


def sun(ctx):
    x, y = ctx.real('x', -5, 5), ctx.real('y', -5, 5)
    a, b = KINDS['sun'].make(ctx, theta=x), KINDS['sun'].make(ctx, theta=y, name='b')
    ctx.assume(x == y)
    ctx.check(boolean(ctx, a == b), 'equal suns')
    ctx.check(boolean(ctx, a == a), 'reflexive')  # noqa: PLR0124


def cases(tier):
    o = dict(trig_congruence=True, branch_ms=150)
    out = [Case('sun', sun)]
    for t in ('cwh3d', 'rot2d', 'rot2d-jax', 'sixdof', 'dub2d', 'dub3d', 'int1d', 'int2d', 'int3d'):
        airs = (False, True) if t.startswith('dub') else (False, )
        for air in airs:
            out.append(Case(f'equal-{t}{"-acc" if air else ""}', equal, dict(tag=t, air=air), opts=o))
        air = t.startswith('dub')
        for k in range(KINDS[t].n + (1 if air else 0)):
            out.append(Case(f'differ-{t}-{k}', differ, dict(tag=t, k=k, air=air), opts=o))
            if not (t == 'sixdof' and k in (3, 4, 5, 6) or t.startswith('rot2d') and k == 2):  # attitude: see differ
                out.append(Case(f'alone-{t}-{k}', alone, dict(tag=t, k=k, air=air), opts=o))
    for t in KINDS:
        out.append(Case(f'unrelated-{t}', unrelated, dict(tag=t), opts=o))
    return out
