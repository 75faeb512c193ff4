"""Descriptions of the entities (independent of the code under test): sizes, limits and equations of motion."""
import math

from engine.harness import Case, OdeStub  # noqa: F401

PI = math.pi
METHODS = ('Euler', 'RK45', 'RK45_JAX')
F32 = 1e-6  # slack for limits that the code stores in single precision


def qrot(q):
    """body to Hill rotation matrix of a unit quaternion (x, y, z, w), entries as term tuples"""
    x, y, z, w = q
    return [
        [(w * w, x * x, -(y * y), -(z * z)), (2 * x * y, -2 * z * w), (2 * x * z, 2 * y * w)],
        [(2 * x * y, 2 * z * w), (w * w, -(x * x), y * y, -(z * z)), (2 * y * z, -2 * x * w)],
        [(2 * x * z, -2 * y * w), (2 * y * z, 2 * x * w), (w * w, -(x * x), -(y * y), z * z)],
    ]


class Kind:
    """one entity class: n states, m controls, limits, wrapped components and equations of motion"""

    path = None
    n = m = 0
    slo = shi = ()  # box the states are drawn from (inside the entity's own limits)
    names = ()
    ulo, uhi = (), ()  # actuator limits
    smin, smax = (), ()  # None: unlimited
    dmin, dmax = (), ()  # derivative limits
    wrap = ()
    jax = False
    defaults = {}

    def make(self, ctx, name='e', method='Euler', **kw):
        if method is not None:
            kw['integration_method'] = method
        k = dict(self.defaults)
        k.update(kw)
        if self.jax:  # single precision
            ctx.rel, ctx.atol = max(ctx.rel, 3e-5), max(ctx.atol, 1e-6)
        return ctx.entity(self.path, name=name, **k)

    def state(self, ctx, name='s'):
        return ctx.vec(name, self.n, list(self.slo), list(self.shi))

    def control(self, ctx, name='u', scale=1.0):
        """within limits for scale=1"""
        return ctx.vec(name, self.m, [x * scale for x in self.ulo], [x * scale for x in self.uhi])

    def f(self, ctx, s, u):
        """terms of the unlimited derivative, per component"""
        raise NotImplementedError

    def limited(self, ctx, s, u):
        """derivative limited directly and at the state limits; single term per component"""
        out = []
        for i, terms in enumerate(self.f(ctx, s, u)):
            d = sum(terms[1:], terms[0])
            if self.dmin and self.dmin[i] is not None:
                d = ctx.Max(d, self.dmin[i])
            if self.dmax and self.dmax[i] is not None:
                d = ctx.Min(d, self.dmax[i])
            if self.smin and self.smin[i] is not None:
                d = ctx.ite(s[i] <= self.smin[i], ctx.Max(d, 0.0), d)
            if self.smax and self.smax[i] is not None:
                d = ctx.ite(s[i] >= self.smax[i], ctx.Min(d, 0.0), d)
            out.append(d)
        return out

    def clip(self, ctx, u):
        return [ctx.Min(ctx.Max(x, lo), hi) for x, lo, hi in zip(u, self.ulo, self.uhi)]

    def put(self, ctx, e, s):
        e.state = ctx.arr(list(s))
        return e

    def __str__(self):
        return self.tag


class Cwh3d(Kind):
    tag = 'cwh3d'
    path = 'cwh.point_model.CWHSpacecraft'
    n, m = 6, 3
    slo, shi = (-1e6, ) * 3 + (-100, ) * 3, (1e6, ) * 3 + (100, ) * 3
    names = ('thrust_x', 'thrust_y', 'thrust_z')
    ulo, uhi = (-1, ) * 3, (1, ) * 3
    smin = smax = dmin = dmax = (None, ) * 6
    wrap = (False, ) * 6
    M, N = 12, 0.001027

    def f(self, ctx, s, u):
        x, y, z, vx, vy, vz = s
        m, n = self.M, self.N
        return [(vx, ), (vy, ), (vz, ), (3 * n * n * x, 2 * n * vy, u[0] / m), (-2 * n * vx, u[1] / m), (-(n * n) * z, u[2] / m)]


ANG_ACC, ANG_VEL = 0.017453, 0.034907
INERTIA = 0.0573
WHEEL_ACC, WHEEL_VEL = 4.1e-5 * 181.3 / INERTIA, 4.1e-5 * 576 / INERTIA
ACC_LIM, VEL_LIM = min(ANG_ACC, WHEEL_ACC), min(ANG_VEL, WHEEL_VEL)


class Rot2d(Kind):
    tag = 'rot2d'
    path = 'cwh.rotational_model.CWHRotation2dSpacecraft'
    n, m = 6, 3
    slo, shi = (-1e6, -1e6, -20, -100, -100, -0.034), (1e6, 1e6, 20, 100, 100, 0.034)
    names = ('thrust_x', 'thrust_y', 'moment_z')
    ulo, uhi = (-1, -1, -ACC_LIM * INERTIA), (1, 1, ACC_LIM * INERTIA)
    smin, smax = (None, ) * 5 + (-VEL_LIM, ), (None, ) * 5 + (VEL_LIM, )
    dmin, dmax = (None, None, -VEL_LIM, None, None, -ACC_LIM), (None, None, VEL_LIM, None, None, ACC_LIM)
    wrap = (False, False, True, False, False, False)
    M, N = 12, 0.001027

    def f(self, ctx, s, u):
        x, y, th, vx, vy, w = s
        m, n = self.M, self.N
        c, si = ctx.cos(th), ctx.sin(th)
        return [(vx, ), (vy, ), (w, ), (3 * n * n * x, 2 * n * vy, c * u[0] / m, -si * u[1] / m),
                (-2 * n * vx, si * u[0] / m, c * u[1] / m), (u[2] / INERTIA, )]


class Rot2dJax(Rot2d):
    tag = 'rot2d-jax'
    jax = True
    slo, shi = (-1e4, -1e4, -3.14, -100, -100, -0.034), (1e4, 1e4, 3.14, 100, 100, 0.034)  # single precision
    defaults = dict(use_jax=True)


class SixDof(Kind):
    tag = 'sixdof'
    path = 'cwh.sixdof_model.SixDOFSpacecraft'
    n, m = 13, 6
    slo = (-1e6, ) * 3 + (-1, ) * 4 + (-100, ) * 3 + (-0.034, ) * 3
    shi = (1e6, ) * 3 + (1, ) * 4 + (100, ) * 3 + (0.034, ) * 3
    names = ('thrust_x', 'thrust_y', 'thrust_z', 'moment_x', 'moment_y', 'moment_z')
    ulo, uhi = (-1.0, ) * 3 + (-ACC_LIM * INERTIA, ) * 3, (1.0, ) * 3 + (ACC_LIM * INERTIA, ) * 3
    smin, smax = (None, ) * 10 + (-VEL_LIM, ) * 3, (None, ) * 10 + (VEL_LIM, ) * 3
    dmin = dmax = (None, ) * 13
    wrap = (False, ) * 13
    M, N = 12, 0.001027
    body = True

    def state(self, ctx, name='s'):
        a = ctx.vec(name + 'p', 3, -1e6, 1e6)
        q = ctx.unit_quat(name + 'q')
        b = ctx.vec(name + 'v', 6, list(self.slo[7:]), list(self.shi[7:]))
        return a + q + b

    def f(self, ctx, s, u):
        m, n = self.M, self.N
        p, q, v, w = s[0:3], s[3:7], s[7:10], s[10:13]
        R = qrot(q)
        acc = []
        for i in range(3):
            if self.body:
                acc.append(tuple(t * u[j] / m for j in range(3) for t in R[i][j]))
            else:
                acc.append((u[i] / m, ))
        q1, q2, q3, q4 = q
        wx, wy, wz = w
        return [
            (v[0], ), (v[1], ), (v[2], ),
            (0.5 * q4 * wx, -0.5 * q3 * wy, 0.5 * q2 * wz), (0.5 * q3 * wx, 0.5 * q4 * wy, -0.5 * q1 * wz),
            (-0.5 * q2 * wx, 0.5 * q1 * wy, 0.5 * q4 * wz), (-0.5 * q1 * wx, -0.5 * q2 * wy, -0.5 * q3 * wz),
            (3 * n * n * p[0], 2 * n * v[1]) + acc[0], (-2 * n * v[0], ) + acc[1], (-(n * n) * p[2], ) + acc[2],
            (u[3] / INERTIA, ), (u[4] / INERTIA, ), (u[5] / INERTIA, ),
        ]


class SixDofHill(SixDof):
    tag = 'sixdof-hill'
    body = False
    defaults = dict(body_frame_thrust=False)


class Dub2d(Kind):
    tag = 'dub2d'
    path = 'dubins.Dubins2dAircraft'
    n, m = 4, 2
    slo, shi = (-1e6, -1e6, -20, 200), (1e6, 1e6, 20, 400)
    names = ('heading_rate', 'acceleration')
    ulo, uhi = (-0.174533, -96.5), (0.174533, 96.5)
    smin, smax = (None, None, None, 200), (None, None, None, 400)
    dmin = dmax = (None, ) * 4
    wrap = (False, False, True, False)

    def f(self, ctx, s, u):
        x, y, h, v = s
        return [(v * ctx.cos(h), ), (v * ctx.sin(h), ), (u[0], ), (u[1], )]


GLIM, RLIM = 0.349066, 1.047198


class Dub3d(Kind):
    tag = 'dub3d'
    path = 'dubins.Dubins3dAircraft'
    n, m = 7, 3
    slo = (-1e6, -1e6, -1e6, -20, -0.34906, -1.04719, 200)  # just inside limits that are stored in single precision
    shi = (1e6, 1e6, 1e6, 20, 0.34906, 1.04719, 400)
    names = ('gamma_rate', 'roll_rate', 'acceleration')
    ulo, uhi = (-0.174533, -0.087266, -96.5), (0.174533, 0.087266, 96.5)
    smin, smax = (None, ) * 4 + (-GLIM, -RLIM, 200), (None, ) * 4 + (GLIM, RLIM, 400)
    dmin = dmax = (None, ) * 7
    wrap = (False, False, False, True, True, True, False)

    def f(self, ctx, s, u):
        x, y, z, h, g, r, v = s
        return [(v * ctx.cos(h) * ctx.cos(g), ), (v * ctx.sin(h) * ctx.cos(g), ), (-v * ctx.sin(g), ), (32.17 / v * ctx.tan(r), ), (u[0], ),
                (u[1], ), (u[2], )]


class Int(Kind):
    dim = 1
    M, D = 1, 0

    def f(self, ctx, s, u):
        d = self.dim
        return [(s[d + i], ) for i in range(d)] + [(-self.D * s[d + i], u[i] / self.M) for i in range(d)]


def _mkint(d):

    class K(Int):
        tag = f'int{d}d'
        path = f'integrators.Integrator{d}d'
        dim = d
        n, m = 2 * d, d
        slo, shi = (-1e6, ) * d + (-100, ) * d, (1e6, ) * d + (100, ) * d
        names = ('thrust_x', 'thrust_y', 'thrust_z')[:d]
        ulo, uhi = (-1, ) * d, (1, ) * d
        smin = smax = dmin = dmax = (None, ) * (2 * d)
        wrap = (False, ) * (2 * d)

    return K


class Sun(Kind):
    tag = 'sun'
    path = 'cwh.sun_model.SunEntity'
    n, m = 1, 0
    slo, shi = (-100, ), (100, )
    smin = smax = dmin = dmax = (None, )
    wrap = (False, )
    N = 0.001027

    def f(self, ctx, s, u):
        return [(self.N, )]


class SunJax(Sun):
    tag = 'sun-jax'
    jax = True
    defaults = dict(use_jax=True)


KINDS = {k.tag: k() for k in (Cwh3d, Rot2d, Rot2dJax, SixDof, SixDofHill, Dub2d, Dub3d, _mkint(1), _mkint(2), _mkint(3), Sun, SunJax)}


def kinds(*tags, skip=()):
    return [k for t, k in KINDS.items() if (not tags or t in tags) and t not in skip]


# ------------------------------------------------------------------ an entity built directly on the base classes
def generic(ctx, n, m, control_default=None, control_min=None, control_max=None, control_map=None, field=None, dyn=None, A=None, B=None, name='g'):
    """entity over BaseEntity whose dynamics are the harness' own; field(state, control) -> list, or linear with A, B"""
    bm = ctx.mod('base_models')
    dyn = dict(dyn or {})
    if field is not None:

        class Dyn(bm.BaseODESolverDynamics):

            def _compute_state_dot(self, t, state, control):
                return ctx.arr(field(t, state, control))

        d = Dyn(**dyn)
    else:
        d = bm.BaseLinearODESolverDynamics(A=A, B=B, **dyn)

    class Ent(bm.BaseEntity):

        def _build_state(self):
            return ctx.arr([0.0] * n)

        x = property(lambda self: self._state[0])
        y = property(lambda self: 0)
        z = property(lambda self: 0)
        position = property(lambda self: self._state.copy())
        orientation = property(lambda self: None)
        velocity = property(lambda self: self._state.copy())

    kw = {}
    if control_min is not None:
        kw['control_min'] = control_min
    if control_max is not None:
        kw['control_max'] = control_max
    if control_map is not None:
        kw['control_map'] = control_map
    return Ent(d, ctx.arr([0.0] * m) if control_default is None else control_default, name=name, **kw)


def total(terms):
    t = tuple(terms) if isinstance(terms, (tuple, list)) else (terms, )
    return sum(t[1:], t[0])


def same(ctx, msg, got, want, **k):
    """arrays (or scalars) equal elementwise"""
    g, w = ctx.flat(got), ctx.flat(want)
    ctx.closes(msg, g, [(x, ) for x in w], **k)


def euler_state(ctx, kind, s, u, h):
    """terms of the state after an Euler step before limiting and wrapping"""
    return [(si, h * d) for si, d in zip(s, kind.limited(ctx, s, u))]


def bounded_close(ctx, kind, i, msg, got, terms):
    """component i of a state after limiting: clip to the state limits (wrapped components compared modulo whole turns)"""
    t = total(terms)
    if kind.smin[i] is not None:
        t2 = ctx.Min(ctx.Max(t, kind.smin[i]), kind.smax[i])
        ctx.close(msg, got, t2, rel=3e-6 if not kind.jax else 3e-5)
    elif kind.wrap[i]:
        turns_close(ctx, msg, got, t, 1e-5)
    else:
        ctx.close(msg, got, *terms)


def turns_close(ctx, msg, got, want, tol):
    """equal up to a whole number of turns"""
    got = ctx.flat(got)[0] if hasattr(got, 'shape') and got.shape else got
    ctx.observe(msg + ' (mod turn)', got)
    r = (got - want) / (2 * PI)
    k = ctx.floor(r + 0.5)
    d = r - k
    ctx.check(ctx.And(d <= tol, d >= -tol), msg)


def _derive(ctx, kind, e, s, u, msg, J=None):
    want = kind.f(ctx, s, u if J is None else [x if i < kind.m - (3 if kind.m == 6 else 1) else x * INERTIA / J for i, x in enumerate(u)])
    got = ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(list(s)), ctx.arr(list(u))))
    ctx.closes(msg, got, want)


def again(ctx, tag):
    """the model asked twice answers the second question, whatever the first was"""
    kind = KINDS[tag]
    e = kind.make(ctx, method='RK45')
    s, u = kind.state(ctx, 'first'), kind.control(ctx, 'uf')
    ctx.flat(e.dynamics.compute_state_dot(0.0, ctx.arr(s), ctx.arr(u)))
    s, u = kind.state(ctx, 's'), kind.control(ctx, 'u')
    if tag.startswith('dub'):
        ctx.assume(ctx.And(s[-1] > 201, s[-1] < 399))  # limits: C05
    _derive(ctx, kind, e, s, u, 'second derivative')


def near(ctx, tag):
    """the model asked about states that differ a little"""
    kind = KINDS[tag]
    e = kind.make(ctx, method='RK45')
    u = kind.control(ctx, 'u')
    g = ctx.real('g', 0.5, 1)
    for k, d in enumerate((0.0, 4.0e-7, -4.0e-5, 4.9e-4, -4.9e-4, 4.0e-3, 9.0e-3, 2.0e-2)):
        s = [0.0123 + d * (1 if i % 2 else -1) * (i + 1) for i in range(kind.n)]
        if kind.n == 13:
            a = 0.5 + d
            s[3:7] = [math.sin(a / 2) * 0.6, -math.sin(a / 2) * 0.8, 0.0, math.cos(a / 2)]
        if tag.startswith('dub'):
            s[-1] = 300 + d
        s = [max(min(x, 0.9 * hi), 0.9 * lo) if lo < 0 else x for x, lo, hi in zip(s, kind.slo, kind.shi)]
        for i in [j for j in range(kind.n) if kind.slo[j] < -1e3]:
            s[i] = s[i] * g
        _derive(ctx, kind, e, s, u, f'derivative at state {k}')


def siblings(ctx, tag, given):
    """entities whose parameters differ a little each follow their own"""
    made = []
    base = dict(m=1.3, n=0.0011, inertia=0.0573, damping=0.5)
    for k, d in enumerate((0.0, 3e-6, 4e-4, 0.04, -0.04, 0.3)):
        p = {q: base[q] * (1 + d) for q in given}
        kind = type(KINDS[tag])()
        kind.M, kind.N = p.get('m', getattr(kind, 'M', None)), p.get('n', getattr(kind, 'N', None))
        kind.D = p.get('damping', 0)
        made.append((kind, kind.make(ctx, name=f'e{k}', method='RK45', **p), p.get('inertia')))
    kind = made[0][0]
    s, u = kind.state(ctx), kind.control(ctx, scale=0.5)
    for k, (kind, e, J) in enumerate(made):
        _derive(ctx, kind, e, s, u, f'derivative of entity {k}', J)


def memory_cases(*tags, given=()):
    out = []
    for t in tags:
        out += [Case(f'again-{t}', again, dict(tag=t)), Case(f'near-{t}', near, dict(tag=t))]
        if given:
            out.append(Case(f'siblings-{t}', siblings, dict(tag=t, given=given)))
    return out


def offsets(times=20):
    """arguments that differ a little, many times over"""
    return [d for _ in range(times) for d in (0.0, 4.0e-7, -4.0e-5, 4.9e-4, -4.9e-4, 4.0e-3, -9.0e-3, 3.0e-2, 0.3, -0.4)]
