"""The interface a property harness is written against; the same harness runs symbolically and, for replay, on real values."""
import importlib
import inspect
import math
import random
import sys
import warnings
from fractions import Fraction

import numpy as np

from . import shims, sym

PKG = 'safe_autonomy_dynamics'
REL, ATOL = 2e-6, 1e-9


class Discard(Exception):
    """concrete values violate an assumption"""


class Elsewhere:
    """a second, untouched instance of the package under test: while entered, entities are built from it"""

    def __init__(self):
        self.mods = {}

    def _swap(self):
        mine = [k for k in sys.modules if k == PKG or k.startswith(PKG + '.')]
        out = {k: sys.modules.pop(k) for k in mine}
        sys.modules.update(self.mods)
        self.mods = out

    def __enter__(self):
        self._swap()

    def __exit__(self, *exc):
        self._swap()


class CtxBase:
    symbolic = False
    rel, atol = REL, ATOL

    def mod(self, name):
        return importlib.import_module(f'{PKG}.{name}')

    def entity(self, dotted, *a, **k):
        m, c = dotted.rsplit('.', 1)
        return getattr(self.mod(m), c)(*a, **k)

    def elsewhere(self):
        return Elsewhere()

    def vec(self, name, n, lo, hi):
        los = lo if isinstance(lo, (list, tuple)) else [lo] * n
        his = hi if isinstance(hi, (list, tuple)) else [hi] * n
        return [self.real(f'{name}{i}', los[i], his[i]) for i in range(n)]

    def warned(self, fn):
        """(result, list of warning texts)"""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn()
        return r, [str(x.category.__name__) for x in w if x.category is UserWarning]

    def quiet(self, fn):
        return self.warned(fn)[0]

    def raises(self, fn):
        """name(s) of the exception raised, or None"""
        try:
            fn()
        except Exception as e:
            return [c.__name__ for c in type(e).__mro__ if issubclass(c, Exception)]
        return None

    def expect_raise(self, fn, names, msg):
        got = self.raises(fn)
        names = [names] if isinstance(names, str) else names
        self.check(got is not None and any(n in got for n in names), f'{msg}: expected {"/".join(names)}, got {got[0] if got else "no error"}')

    def closes(self, msg, got, specs, **k):
        got = list(got)
        if len(got) != len(specs):
            self.check(False, f'{msg}: length {len(got)} instead of {len(specs)}')
            return
        for i, (g, s) in enumerate(zip(got, specs)):
            self.close(f'{msg}[{i}]', g, *(s if isinstance(s, (tuple, list)) else (s, )), **k)

    def flat(self, a):
        return [x for x in (shims.base(a) if self.symbolic else np.asarray(a)).ravel()]


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, eng, world, case):
        self.E, self.world, self.case = eng, world, case
        self.observed = []
        self.pi = math.pi
        self.inf = math.inf

    # inputs
    def real(self, name, lo, hi):
        return self.E.real_input(name, lo, hi)

    def boolean(self, name):
        return bool(self.E.bool_input(name))

    def symbool(self, name):
        return self.E.bool_input(name)

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        v = self.E.int_input(name, 0, len(options) - 1)
        return options[self.E.concretize(v.e)]

    def unit_quat(self, name):
        q = self.vec(name, 4, -1, 1)
        self.E.quats.append([f'{name}{i}' for i in range(4)])
        self.E.add_unit((q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).e)
        return q

    def arr(self, x, dtype=None):
        return sym.arr(x, dtype=dtype)

    def jarr(self, x):
        return sym.arr(x, dtype=np.float32, jax=True)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c[()]
        self.E.assume(c)

    def branch(self, c):
        return bool(c)

    # functions
    sin = staticmethod(lambda x: sym.s_sin(x))
    cos = staticmethod(lambda x: sym.s_cos(x))
    tan = staticmethod(lambda x: sym.s_tan(x))
    sqrt = staticmethod(lambda x: sym.s_sqrt(x))

    def asin(self, x):
        return sym.s_asin(x)

    def floor(self, x):
        return sym.s_floor(x) if isinstance(x, sym.SymNum) else math.floor(x)

    def exp(self, x):
        return sym.s_exp(x)

    def pow(self, x, q):
        return sym.s_pow(x, q) if sym.isym(x) else float(x)**q

    def ite(self, c, a, b):
        return sym.ite(c, a, b)

    def Min(self, a, b):
        return sym.s_min(a, b)

    def Max(self, a, b):
        return sym.s_max(a, b)

    def And(self, *a):
        return sym.mk_and(*a)

    def Or(self, *a):
        return sym.mk_or(*a)

    def Not(self, a):
        return sym.mk_not(a)

    def Implies(self, a, b):
        return sym.mk_or(sym.mk_not(a), b)

    def Iff(self, a, b):
        return sym.mk_or(sym.mk_and(a, b), sym.mk_and(sym.mk_not(a), sym.mk_not(b)))

    # obligations
    def observe(self, label, v):
        if isinstance(v, np.ndarray) and v.size == 1:
            v = sym.base(v).ravel()[0]
        self.observed.append((label, v))

    def check(self, c, msg):
        if isinstance(c, np.ndarray):
            c = c.all() if isinstance(c, sym.SymArr) else bool(c.all())
        self.E.obligation(c, msg)

    def close(self, msg, got, *terms, rel=None, atol=None):
        if isinstance(got, np.ndarray):
            if got.size != 1:
                self.check(False, f'{msg}: array of shape {got.shape} where a number was expected')
                return
            got = sym.base(got).ravel()[0]
        if not sym.isym(got) and not sym.is_num(got):
            self.check(False, f'{msg}: {type(got).__name__} where a number was expected')
            return
        self.observe(msg, got)
        self.E.close_obligation(msg, got, terms, self.rel if rel is None else rel, self.atol if atol is None else atol)

    def le(self, msg, a, b, slack=1e-6):
        """a <= b up to rounding"""
        self.check(a <= b + slack * (1 + abs(b)), msg)

    # arbitrary functions in place of parts of the code under test
    def stub(self, modname, attr, name=None, nargs=None):
        """the (arbitrary) function installed for a hooked attribute"""
        return self.case.stubs[(modname, attr)]

    def set_ode(self, handler):
        shims.OdeDispatch.handler = handler

    def num(self, x):
        return x


def make_stub(name, real, nout=None):
    """an arbitrary function of the same signature; sequences returned when nout is given"""
    sig = inspect.signature(real)

    def f(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        vals = list(ba.arguments.values())
        flat = []
        for v in vals:
            if isinstance(v, (np.ndarray, list, tuple)):
                flat.extend(sym.base(v).ravel())
            elif sym.isym(v) or sym.is_num(v):
                flat.append(v)
            else:
                raise sym.Unencodable(f'argument of stub {name}')
        if nout is None:
            return sym.E.uf(name, flat)
        return tuple(sym.E.uf(f'{name}_{i}', flat) for i in range(nout))

    return f


class ConcCtx(CtxBase):
    """runs the harness on the real, unmodified code"""

    def __init__(self, values, seed=0, use_random=False, slack=1.0):
        self.slack = slack
        self.values = dict(values)
        self.rng = random.Random(seed)
        self.use_random = use_random
        self.used = {}
        self.failures = []
        self.observed = []
        self.pi = math.pi
        self.inf = math.inf

    def _draw(self, lo, hi):
        r = self.rng.random()
        if r < 0.07:
            return lo
        if r < 0.14:
            return hi
        if r < 0.20 and lo <= 0 <= hi:
            return 0.0
        if r < 0.35:
            m = min(abs(lo) if lo else 1.0, abs(hi) if hi else 1.0, 1.0)
            return min(max(self.rng.uniform(-m, m), lo), hi)
        return self.rng.uniform(lo, hi)

    def real(self, name, lo, hi):
        if name not in self.values:
            self.values[name] = self._draw(-1e3 if lo is None else lo, 1e3 if hi is None else hi)
        v = float(self.values[name])
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        self.used[name] = v
        return v

    def boolean(self, name):
        if name not in self.values:
            self.values[name] = self.rng.random() < 0.5
        self.used[name] = bool(self.values[name])
        return self.used[name]

    symbool = boolean

    def choice(self, name, options):
        if len(options) == 1:
            return options[0]
        if name not in self.values:
            self.values[name] = self.rng.randrange(len(options))
        i = int(self.values[name])
        self.used[name] = i
        return options[i]

    def unit_quat(self, name):
        q = [self.real(f'{name}{i}', -1, 1) for i in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n < 1e-9:
            raise Discard
        return [x / n for x in q]

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    def jarr(self, x):
        import jax.numpy as jnp
        return jnp.array(x, dtype=jnp.float32)

    def assume(self, c):
        if not np.all(c):
            raise Discard

    def branch(self, c):
        return bool(c)

    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    tan = staticmethod(np.tan)
    exp = staticmethod(np.exp)

    def sqrt(self, x):
        return float(np.sqrt(x))

    def asin(self, x):
        return float(np.arcsin(x))

    def floor(self, x):
        return math.floor(x)

    def pow(self, x, q):
        return float(x)**q

    def ite(self, c, a, b):
        return a if c else b

    def Min(self, a, b):
        return min(a, b)

    def Max(self, a, b):
        return max(a, b)

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def Implies(self, a, b):
        return not bool(a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def num(self, x):
        return float(x)

    def observe(self, label, v):
        try:
            v = float(np.asarray(v).ravel()[0]) if np.size(v) == 1 else None
        except (TypeError, ValueError):
            v = None
        self.observed.append((label, v))

    def check(self, c, msg):
        if not np.all(c):
            self.failures.append(msg)

    def close(self, msg, got, *terms, rel=None, atol=None):
        if np.size(got) != 1:
            self.failures.append(f'{msg}: array of shape {np.shape(got)} where a number was expected')
            return
        try:
            g = float(np.asarray(got).ravel()[0])
        except (TypeError, ValueError):
            self.failures.append(f'{msg}: {type(got).__name__} where a number was expected')
            return
        self.observe(msg, g)
        ts = [float(t) for t in terms]
        want = math.fsum(ts)
        if not all(math.isfinite(t) for t in ts):
            raise Discard
        tol = (self.rel if rel is None else rel) * sum(abs(t) for t in ts) + (self.atol if atol is None else atol)
        if not abs(g - want) <= tol * self.slack:
            self.failures.append(f'{msg}: got {g!r}, expected {want!r}')

    def le(self, msg, a, b, slack=1e-6):
        if not float(a) <= float(b) + self.slack * slack * (1 + abs(float(b))):
            self.failures.append(f'{msg}: {float(a)!r} > {float(b)!r}')

    def stub(self, modname, attr, name=None, nargs=None):
        return getattr(self.mod(modname), attr)

    def set_ode(self, handler):
        RealOde.handler = handler


class RealOde:
    """dispatches scipy.integrate.solve_ivp / jax odeint to the harness' stand-in when one is installed"""
    handler = None

    @classmethod
    def patch(cls):
        import scipy.integrate
        import jax.experimental.ode as jode
        real_ivp, real_odeint = scipy.integrate.solve_ivp, jode.odeint

        def solve_ivp(fun, t_span, y0, method='RK45', t_eval=None, args=None, events=None, **options):
            if cls.handler is None:
                return real_ivp(fun, t_span, y0, method=method, t_eval=t_eval, args=args, events=events, **options)
            return cls.handler.solve_ivp(fun, t_span, y0, method=method, t_eval=t_eval, args=args, events=events, **options)

        def odeint(func, y0, t, *args, **kw):
            if cls.handler is None:
                return real_odeint(func, y0, t, *args, **kw)
            return cls.handler.odeint(func, y0, t, *args, **kw)

        scipy.integrate.solve_ivp = solve_ivp
        jode.odeint = odeint


class OdeStub:
    """An arbitrary integrator: returns unconstrained end states and samples, and records how it was called."""

    def __init__(self, ctx, n, lo=-1e3, hi=1e3, tag='ode', fail=None, end=None, reuse=None):
        self.ctx, self.n, self.lo, self.hi, self.tag = ctx, n, lo, hi, tag
        self.fail = fail
        self.calls = []
        self.end = end
        self.reuse = reuse  # results of another stub to return again

    def _vals(self, k, j):
        name = f'{self.tag}_c{k}_s{j}_'
        if self.reuse is not None and k < len(self.reuse.calls) and j in self.reuse.calls[k]['vals']:
            return self.reuse.calls[k]['vals'][j]
        if self.end is not None and j == 'end':
            return self.end
        return self.ctx.vec(name, self.n, self.lo, self.hi)

    def _arr2(self, rows):
        return self.ctx.arr([list(r) for r in rows])

    def solve_ivp(self, fun, t_span, y0, method='RK45', t_eval=None, args=None, events=None, **options):
        ctx, k = self.ctx, len(self.calls)
        args = tuple(args) if args is not None else ()

        def deriv(t, y):
            return fun(t, y, *args)

        vals = {}
        rec = dict(kind='solve_ivp', events=events, t0=t_span[0], t1=t_span[1], y0=list(ctx.flat(y0)), method=method, options=options, deriv=deriv,
                   t_eval=None if t_eval is None else list(ctx.flat(t_eval)), vals=vals)
        self.calls.append(rec)
        if t_eval is None:
            mid = (t_span[0] + t_span[1]) * 0.5
            ts = [t_span[0], mid, t_span[1]]
            vals['mid'], vals['end'] = self._vals(k, 'mid'), self._vals(k, 'end')
            ys = [rec['y0'], vals['mid'], vals['end']]
        else:
            ts = rec['t_eval']
            m = len(ts)
            ys = []
            last = False
            if m:   # only a sample at the end of the interval is the end state
                d = t_span[1] - ts[-1]
                last = ctx.branch(ctx.And(d <= 1e-9 * t_span[1], d >= -1e-9 * t_span[1]))
            for j in range(m):
                key = 'end' if j == m - 1 and last else j
                vals[key] = self._vals(k, key)
                ys.append(vals[key])
        rec['samples_t'], rec['samples'] = ts, ys
        failed = self.fail is not None and self.fail == k
        rec['failed'] = failed
        if failed:
            ts, ys = ts[:1], ys[:1]
        y = self._arr2([[r[i] for r in ys] for i in range(self.n)])
        t = ctx.arr(list(ts))
        res = OdeRes(t=t, y=y, sol=None, t_events=None, y_events=None, nfev=8, njev=0, nlu=0, status=-1 if failed else 0,
                     message='Required step size is less than spacing between numbers.' if failed else
                     'The solver successfully reached the end of the integration interval.', success=not failed)
        return res

    def odeint(self, func, y0, t, *args, **kw):
        ctx, k = self.ctx, len(self.calls)

        def deriv(tt, y):
            return func(y, tt, *args)

        vals = {}
        ts = list(ctx.flat(t))
        rec = dict(kind='odeint', t0=ts[0], t1=ts[-1], y0=list(ctx.flat(y0)), method='odeint', options=kw, deriv=deriv, t_eval=None, vals=vals)
        self.calls.append(rec)
        rows = [rec['y0']]
        for j in range(1, len(ts)):
            key = 'end' if j == len(ts) - 1 else j
            vals[key] = self._vals(k, 'end') if key == 'end' else [0.0] * self.n
            if key != 'end':
                vals[key] = [12345.0 + j] * self.n
            rows.append(vals[key])
        rec['samples_t'], rec['samples'], rec['failed'] = ts, rows, False
        return ctx.jarr([list(r) for r in rows])


class OdeRes(dict):

    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError as e:
            raise AttributeError(n) from e

    __setattr__ = dict.__setitem__


class Case:
    """one harness with its parameters"""

    def __init__(self, name, fn, params=None, hooks=None, opts=None, tier='quick', jax=False):
        self.name, self.fn, self.params = name, fn, params or {}
        self.hooks = hooks  # {module: {attr: (stub name, nout)}}
        self.opts = opts or {}
        self.tier = tier
        self.stubs = {}

    def run(self, ctx):
        self.fn(ctx, **self.params)
