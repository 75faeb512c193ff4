"""C26: relative position and velocity are other minus own."""
from checks.common import *
from checks import c20

BOUNDS = ('every pair of states of point-mass, planar and six-DOF spacecraft (any combination, NumPy and JAX), also close together at 1e8, 3 entities in the simulation, names from a '
          'set of 10 including unusual and misleading ones, before and after moving either entity and after replacing an entity or the simulation')
NAMES = ('chief', 'deputy', 'a b', '0', '', 'x', 'lead', 'self', 'third', 'other')


class Sim:

    def __init__(self, **k):
        self.sim_entities = dict(k)


def posvel(tag, s):
    d = dict(zip(c20.KEYS[tag], s))
    return [d.get(k, 0.0) for k in 'xyz'], [d.get(k, 0.0) for k in ('x_dot', 'y_dot', 'z_dot')]


def compare(ctx, what, own, other, e, name):
    p, v = posvel(*own)
    P, V = posvel(*other)
    ctx.closes(f'{what}: relative position', ctx.flat(e.entity_relative_position(name)), [(b, -a) for a, b in zip(p, P)])
    ctx.closes(f'{what}: relative velocity', ctx.flat(e.entity_relative_velocity(name)), [(b, -a) for a, b in zip(v, V)])


def pair(ctx, a, b):
    sim = Sim()
    ea = KINDS[a].make(ctx, name='own', sim=sim)
    eb, ec = KINDS[b].make(ctx, name='other'), KINDS['cwh3d'].make(ctx, name='third')
    sa, sb, sc = c20.state(ctx, a, 'a'), c20.state(ctx, b, 'b'), c20.state(ctx, 'cwh3d', 'c')
    for e, s in ((ea, sa), (eb, sb), (ec, sc)):
        e.state = ctx.arr(s)
    i = ctx.choice('name', list(range(len(NAMES))))
    nm, other = NAMES[i], NAMES[(i + 1) % len(NAMES)]
    sim.sim_entities.update({'own': ea, nm: eb, other: ec})
    if a.startswith('sixdof'):
        ea.register_lead(ec)
        ctx.check(ea.lead is ec, 'lead registered')
    compare(ctx, 'by name', (a, sa), (b, sb), ea, nm)
    compare(ctx, 'another name', (a, sa), ('cwh3d', sc), ea, other)
    compare(ctx, 'itself', (a, sa), (a, sa), ea, 'own')
    ctx.expect_raise(lambda: ea.entity_relative_position('nobody'), 'Exception', 'unknown entity')
    sa2, sb2 = c20.state(ctx, a, 'a2'), c20.state(ctx, b, 'b2')
    eb.state = ctx.arr(sb2)
    compare(ctx, 'other moved', (a, sa), (b, sb2), ea, nm)
    ea.state = ctx.arr(sa2)
    compare(ctx, 'own moved', (a, sa2), (b, sb2), ea, nm)


def far(ctx, a, b):
    """close to each other, far from the origin: values single precision can not hold"""
    sim = Sim()
    ea, eb = KINDS[a].make(ctx, name='own', sim=sim), KINDS[b].make(ctx, name='other')
    sim.sim_entities.update(own=ea, other=eb)
    x = ctx.real('x', -1, 1)

    def state(tag, shift):
        d = dict(zip(('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'), (123456789.0, -987654321.0, 55555555.5, 1234567.125, -7654321.25, 333333.75)))
        return [d[k] + shift if k in d else 1.0 if k == 'q4' else 0.0 for k in c20.KEYS[tag]]

    ea.state, eb.state = ctx.arr(state(a, 0.0)), ctx.arr(state(b, 0.25))
    for what, got in (('position', ea.entity_relative_position('other')), ('velocity', ea.entity_relative_velocity('other'))):
        for i, g in enumerate(ctx.flat(got)):
            if i < 2 or not (a + b).count('rot2d'):
                ctx.close(f'relative {what} {i}', g * x, 0.25 * x)
            elif a.startswith('rot2d') and b.startswith('rot2d'):
                ctx.close(f'relative {what} {i}', g * x, 0.0 * x)


class Landmark:
    """something else with a position and velocity, which it hands out by reference"""

    def __init__(self, position, velocity):
        self.position, self.velocity = position, velocity


def landmark(ctx, tag):
    """the other entity is only read; asking twice gives the same answer"""
    e, s = KINDS[tag].make(ctx, name='e'), c20.state(ctx, tag)
    e.state = ctx.arr(s)
    p, v = ctx.vec('p', 3, -1e6, 1e6), ctx.vec('v', 3, -1e4, 1e4)
    mark = Landmark(ctx.arr(p), ctx.arr(v))
    e.set_sim(Sim(mark=mark))
    op, ov = posvel(tag, s)
    for k in ('first', 'second'):
        ctx.closes(f'{k} relative position', ctx.flat(e.entity_relative_position('mark')), [(b, -a) for a, b in zip(op, p)])
        ctx.closes(f'{k} relative velocity', ctx.flat(e.entity_relative_velocity('mark')), [(b, -a) for a, b in zip(ov, v)])
        ctx.closes('position of the other', ctx.flat(mark.position), [(x, ) for x in p])
        ctx.closes('velocity of the other', ctx.flat(mark.velocity), [(x, ) for x in v])
        ctx.closes('own state', ctx.flat(e.state), [(x, ) for x in s])


def rebind(ctx, tag):
    """an entity or the whole simulation replaced under the same name"""
    kind = KINDS[tag]
    e, b, c = (kind.make(ctx, name=n) for n in 'ebc')
    se, sb, sc = (c20.state(ctx, tag, n) for n in 'ebc')
    for x, s in ((e, se), (b, sb), (c, sc)):
        x.state = ctx.arr(s)
    s1 = Sim(target=b)
    e.set_sim(s1)
    compare(ctx, 'first', (tag, se), (tag, sb), e, 'target')
    s1.sim_entities['target'] = c
    compare(ctx, 'replaced', (tag, se), (tag, sc), e, 'target')
    e.set_sim(Sim(target=b, other=c))
    compare(ctx, 'new simulation', (tag, se), (tag, sb), e, 'target')
    ctx.closes('own state', ctx.flat(e.state), [(x, ) for x in se])
    ctx.closes('other state', ctx.flat(b.state), [(x, ) for x in sb])


def stepped(ctx, tag):
    """after both entities took a step"""
    kind = KINDS[tag]
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    a, b = kind.make(ctx, name='a'), kind.make(ctx, name='b')
    sim = Sim(a=a, b=b)
    a.set_sim(sim)
    b.set_sim(sim)
    for x, n in ((a, 'sa'), (b, 'sb')):
        x.state = ctx.arr(kind.state(ctx, n))
    # moderate scale so that rounding of the difference stays visible only at 1e-2
    for x, n in ((a, 'ua'), (b, 'ub')):
        x.step(1.0, ctx.arr(kind.control(ctx, n)))
    now = {n: posvel(tag, ctx.flat(x.state)) for n, x in (('a', a), ('b', b))}
    for me, other, e in (('a', 'b', a), ('b', 'a', b)):
        ctx.closes('relative position', ctx.flat(e.entity_relative_position(other)), [(q, -p) for p, q in zip(now[me][0], now[other][0])])
        ctx.closes('relative velocity', ctx.flat(e.entity_relative_velocity(other)), [(q, -p) for p, q in zip(now[me][1], now[other][1])])


def cases(tier):
    out = []
    tags = ('cwh3d', 'rot2d', 'sixdof', 'rot2d-jax')
    for a in tags:
        for b in tags:
            out.append(Case(f'pair-{a}-{b}', pair, dict(a=a, b=b), tier='quick' if 'jax' not in a + b else 'thorough'))
            if 'jax' not in a + b:
                out.append(Case(f'far-{a}-{b}', far, dict(a=a, b=b)))
    for t in tags:
        out += [Case(f'landmark-{t}', landmark, dict(tag=t)), Case(f'rebind-{t}', rebind, dict(tag=t)), Case(f'stepped-{t}', stepped, dict(tag=t))]
    return out
