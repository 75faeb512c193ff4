"""Stand-ins for the libraries the code under test imports, working on symbolic values.

Only modules of the package under test see these (see loader.py); the harness and the libraries themselves use the real ones.
"""
import inspect
import math
import numbers
import sys
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import SymArr, SymBool, SymNum, Unencodable, arr, base, isym, mk_arr, mk_view, z3


def has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, SymArr)):
        return True
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


class JaxArray:
    """marker for isinstance(x, jnp.ndarray)"""

    def __new__(cls, *a, **k):
        raise TypeError('jax.Array cannot be instantiated')


# ------------------------------------------------------------------ builtins seen by the code under test
_builtin_isinstance = isinstance


def _flat_types(t):
    if _builtin_isinstance(t, tuple):
        for x in t:
            yield from _flat_types(x)
    elif _builtin_isinstance(t, types.UnionType):
        yield from t.__args__
    else:
        yield t


def sym_isinstance(x, t):
    ts = list(_flat_types(t))
    if _builtin_isinstance(x, SymNum):
        isint = z3.is_int(x.e)
        for c in ts:
            if c in (numbers.Number, numbers.Real, numbers.Complex, np.number, np.generic, SymNum):
                return True
            if c in (float, np.floating, np.float64) and not isint:
                return True
            if c in (int, np.integer, np.int64, numbers.Integral, numbers.Rational) and isint:
                return True
        return False
    if _builtin_isinstance(x, SymBool):
        return any(c in (bool, np.bool_, int, SymBool) for c in ts)
    if _builtin_isinstance(x, SymArr):
        for c in ts:
            if c is np.ndarray and not x._jax:
                return True
            if c is JaxArray and x._jax:
                return True
            if c in (SymArr, object):
                return True
        return False
    if JaxArray in ts:
        ts = [c for c in ts if c is not JaxArray]
    return _builtin_isinstance(x, tuple(ts))


def sym_float(x=0.0):
    if _builtin_isinstance(x, SymArr):
        if x.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        x = base(x).ravel()[0]
    if _builtin_isinstance(x, SymBool):
        x = x._num()
    if _builtin_isinstance(x, SymNum):
        return sym.WeakNum(sym.real(x.e))
    return float(x)


def sym_int(x=0, *a):
    if _builtin_isinstance(x, SymArr):
        x = base(x).ravel()[0]
    if _builtin_isinstance(x, SymBool):
        x = x._num()
    if _builtin_isinstance(x, SymNum):
        return sym.s_trunc_int(x)
    return int(x, *a)


def sym_bool(x=False):
    if _builtin_isinstance(x, SymArr):
        if x.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        x = base(x).ravel()[0]
    if _builtin_isinstance(x, SymNum):
        return sym.mk_bool(x.e != 0)
    if _builtin_isinstance(x, SymBool):
        return x
    return bool(x)


def _minmax(real, fn):

    def f(*args, **kw):
        xs = list(args[0]) if len(args) == 1 else list(args)
        if 'key' in kw or 'default' in kw or not any(_builtin_isinstance(x, SymNum) for x in xs):
            return real(*args, **kw)
        # python's min keeps the first of equal elements
        r = xs[0]
        for x in xs[1:]:
            r = sym.ite(fn(x, r), x, r)
        return r

    return f


def sym_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sym_round(x, n=None):
    if _builtin_isinstance(x, SymNum):
        r = sym.s_round(x, n or 0)
        return r if n is not None else sym.s_trunc_int(r)
    return round(x, n) if n is not None else round(x)


def sym_npcast(f, *args, **kw):
    """np.float64(x) and friends, also any other callable that merely has such a name"""
    if len(args) == 1 and not kw and has_sym(args[0]) and _builtin_isinstance(f, type) and issubclass(f, np.generic):
        x = args[0]
        if _builtin_isinstance(x, (list, tuple, SymArr)):
            return arr(x, dtype=f)
        return sym.cast_scalar(x, np.dtype(f))
    return f(*args, **kw)


def sym_type(*a):
    if len(a) == 1:
        if _builtin_isinstance(a[0], SymNum):
            return int if z3.is_int(a[0].e) else float
        if _builtin_isinstance(a[0], SymBool):
            return bool
        if _builtin_isinstance(a[0], SymArr):
            return JaxArray if a[0]._jax else np.ndarray
    return type(*a)


# ------------------------------------------------------------------ numpy
def _to_sym(r, jax=False):
    if _builtin_isinstance(r, SymArr):
        if r._jax != jax:
            r = mk_view(base(r), r._sdt, jax)
        if jax and r._sdt == np.dtype(np.float64):
            r._sdt = np.dtype(np.float32)
        return r
    if type(r) is np.ndarray and r.dtype.kind in 'fiub':
        r = arr(r, jax=jax)
        if jax and r._sdt == np.dtype(np.float64):
            r._sdt = np.dtype(np.float32)
        return r
    if type(r) is np.ndarray and r.dtype == object and has_sym(list(r.ravel())):
        return mk_view(r, np.float64, jax)
    if _builtin_isinstance(r, (list, tuple)) and type(r) in (list, tuple):
        return type(r)(_to_sym(x, jax) for x in r)
    return r


def _conv_list_args(args):
    return [arr(a) if _builtin_isinstance(a, (list, tuple)) and has_sym(a) else a for a in args]


class UfuncShim:

    def __init__(self, uf, jax):
        self._uf, self._jax = uf, jax
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        args = _conv_list_args(args)
        return _to_sym(self._uf(*args, **kw), self._jax)

    def __getattr__(self, n):
        m = getattr(self._uf, n)
        if callable(m):
            return lambda *a, **k: _to_sym(m(*_conv_list_args(a), **k), self._jax)
        return m


class FuncShim:

    def __init__(self, f, jax):
        self._f, self._jax = f, jax
        self.__name__ = f.__name__

    def __call__(self, *args, **kw):
        if has_sym(args) or has_sym(kw):
            h = sym.AF.get(self._f.__name__, 0)
            if h == 'native' or not h:
                r = sym.array_function(self._f, (), args, kw)
            else:
                r = h(*_conv_list_args(args), **kw)
        else:
            r = self._f(*args, **kw)
        return _to_sym(r, self._jax)


class NpShim(types.ModuleType):

    def __init__(self, name, real, jax=False):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_isjax'] = jax
        self.__dict__['_memo'] = {}
        self.__file__ = None
        self.__path__ = []

    def __getattr__(self, n):
        memo = self.__dict__['_memo']
        if n in memo:
            return memo[n]
        real, jax = self.__dict__['_real'], self.__dict__['_isjax']
        x = getattr(real, n)
        if _builtin_isinstance(x, np.ufunc):
            x = UfuncShim(x, jax)
        elif _builtin_isinstance(x, types.ModuleType):
            x = NpShim(f'{self.__name__}.{n}', x, jax)
        elif _builtin_isinstance(x, type):
            pass
        elif callable(x) and hasattr(x, '__name__'):
            x = FuncShim(x, jax)
        memo[n] = x
        return x


def make_numpy(jax=False):
    m = NpShim('jax.numpy' if jax else 'numpy', np, jax)
    dflt = np.float32 if jax else np.float64

    def dt(d):
        d = np.dtype(d) if d is not None else None
        return np.dtype(np.float32) if jax and d == np.dtype(np.float64) else d

    def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
        r = arr(x, dtype=dt(dtype), jax=jax)
        if _builtin_isinstance(r, SymArr):
            while r.ndim < ndmin:
                r = r.reshape((1, ) + r.shape)
        return _to_sym(r, jax)

    def asarray(x, dtype=None, **k):
        if _builtin_isinstance(x, SymArr) and x._jax == jax and (dtype is None or dt(dtype) == x._sdt):
            return x
        return array(x, dtype)

    def _shape(s):
        if _builtin_isinstance(s, (list, tuple, np.ndarray)):
            return tuple(int(v.__index__()) for v in (base(s).ravel() if _builtin_isinstance(s, np.ndarray) else s))
        return (s.__index__(), )

    def const(v):

        def f(shape, dtype=None, order='C', **k):
            d = dt(dtype) or np.dtype(dflt)
            shp = _shape(shape)
            return mk_arr([sym.cast_scalar(v, d)] * int(np.prod(shp)), d, shp, jax)

        return f

    def full(shape, fill_value, dtype=None, **k):
        shp = _shape(shape)
        src = arr(fill_value, dtype=dt(dtype))
        b = np.broadcast_to(base(src), shp)
        return mk_view(np.array(b, dtype=object, copy=True), src._sdt, jax)

    def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if not has_sym((a, b)):
            return _to_sym(np.linspace(a, b, num, endpoint=endpoint, retstep=retstep, dtype=dtype), jax)
        num = num.__index__()
        div = num - 1 if endpoint else num
        step = (b - a) / div if div > 0 else float('nan')
        out = [a + (b - a) * Fraction(i, div) if i != div else b for i in range(num)] if div > 0 else [a] * num
        r = mk_arr(out, np.float64, (num, ), jax)
        return (r, step) if retstep else r

    def arange(*a, **k):
        if not has_sym(a):
            return _to_sym(np.arange(*a, **k), jax)
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a[:3]
        if isym(step):
            up = bool(step > 0)
        else:
            up = step > 0
        out = []
        while len(out) < 65:
            x = start + len(out) * step
            more = x < stop if up else x > stop
            if not (bool(more) if isym(more) else more):
                whole = all(_builtin_isinstance(v, (int, np.integer)) for v in (start, stop, step))
                return mk_arr(out, np.int64 if whole else np.float64, (len(out), ), jax)
            out.append(x)
        raise Unencodable('arange with symbolic bounds beyond 64 elements')

    def interp(x, xp, fp, left=None, right=None, period=None):
        if not has_sym((x, xp, fp)):
            return _to_sym(np.interp(x, xp, fp, left, right, period), jax)
        if has_sym((xp, )) or period is not None or (_builtin_isinstance(x, np.ndarray) and x.ndim > 0):
            xs = base(xp).ravel()
            if any(isym(v) for v in xs) or period is not None:
                raise Unencodable('interp')
        xp, fp = list(base(xp).ravel()), list(base(fp).ravel())

        def one(v):
            r = fp[-1] if right is None else right
            r = sym.ite(v <= xp[-1], fp[-1], r)
            for i in range(len(xp) - 2, -1, -1):
                seg = fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) * Fraction(1) / Fraction(xp[i + 1] - xp[i]))
                r = sym.ite(v < xp[i + 1], seg, r)
            return sym.ite(v < xp[0], fp[0] if left is None else left, r)

        return sym.apply(one, x)

    def searchsorted(a, v, side='left', sorter=None):
        if not has_sym((a, v)):
            return np.searchsorted(a, v, side, sorter)
        n = 0
        for x in base(a).ravel():
            c = (x < v) if side == 'left' else (x <= v)
            n = n + (sym.ite(c, 1, 0) if isym(c) else int(c))
        return SymNum(z3.ToInt(n.e)) if _builtin_isinstance(n, SymNum) and not z3.is_int(n.e) else n

    def matrix(x, dtype=None, copy=True):
        if has_sym(x):
            r = arr(x)
            return r if r.ndim == 2 else r.reshape(1, -1)
        return arr(np.asarray(np.matrix(x)))

    def copy(x, **k):
        return array(x)

    def isscalar(x):
        return isym(x) or np.isscalar(x)

    def asscalar_array(f):

        def g(x):
            return f(x if not _builtin_isinstance(x, (list, tuple)) else array(x))

        return g

    def fromiter(it, dtype=None, count=-1, **k):
        v = list(it)
        return array(v if count < 0 else v[:count], dtype)

    def np_divmod(a, b):
        return a // b, a % b

    class Vectorize:
        def __init__(self, f, **k):
            self.f = f

        def __call__(self, *args):
            if has_sym(args):
                return _to_sym(sym.apply(self.f, *[arr(a) if _builtin_isinstance(a, (list, tuple)) else a for a in args]), jax)
            return _to_sym(np.vectorize(self.f)(*args), jax)

    class Glue:
        def __init__(self, real, columns):
            self.real, self.columns = real, columns

        def __getitem__(self, k):
            parts = k if _builtin_isinstance(k, tuple) else (k, )
            if not has_sym(parts):
                return _to_sym(self.real[k], jax)
            if self.columns or any(_builtin_isinstance(x, (slice, str)) for x in parts):
                raise Unencodable('concatenation by index')
            return m.concatenate([m.atleast_1d(arr(x)) for x in parts])

    d = m.__dict__
    d.update(
        fromiter=fromiter, divmod=np_divmod, vectorize=Vectorize, r_=Glue(np.r_, False), c_=Glue(np.c_, True),
        array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros=const(0), ones=const(1), empty=const(0), full=full,
        linspace=linspace, arange=arange, interp=interp, searchsorted=searchsorted, matrix=matrix, copy=copy, isscalar=isscalar,
        ndarray=JaxArray if jax else np.ndarray, float64=np.float64, float32=np.float32
    )
    if jax:
        d['asarray'] = lambda x, dtype=None, **k: array(x, dtype)
        d['float64'] = np.float32
        d['bool_'] = np.bool_
    return m


# ------------------------------------------------------------------ math
def make_math():
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'):
            setattr(m, n, getattr(math, n))

    def lift1(n, s):
        real = getattr(math, n)

        def f(x):
            if _builtin_isinstance(x, SymArr):
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                x = base(x).ravel()[0]
            if _builtin_isinstance(x, SymBool):
                x = x._num()
            return s(x) if _builtin_isinstance(x, SymNum) else real(x)

        setattr(m, n, f)

    def m_sqrt(x):
        if bool(x < 0):
            raise ValueError('math domain error')
        return sym.s_sqrt(x)

    def m_asin(fn):

        def f(x):
            if bool(sym.mk_or(x < -1, x > 1)):
                raise ValueError('math domain error')
            return fn(x)

        return f

    for n, s in dict(
        sin=sym.s_sin, cos=sym.s_cos, tan=sym.s_tan, sqrt=m_sqrt, asin=m_asin(sym.s_asin), acos=m_asin(sym.s_acos), atan=sym.s_atan,
        exp=sym.s_exp, log=sym.s_log, tanh=sym.s_tanh, floor=sym.s_floor_int, ceil=sym.s_ceil_int, trunc=sym.s_trunc_int, fabs=abs,
        degrees=sym.s_rad2deg, radians=sym.s_deg2rad, isnan=sym.s_isnan, isinf=sym.s_isinf, isfinite=sym.s_isfinite
    ).items():
        lift1(n, s)

    def wrap2(n, s):
        real = getattr(math, n)
        setattr(m, n, lambda *a, **k: s(*a) if has_sym(a) else real(*a, **k))

    wrap2('atan2', sym.s_atan2)
    wrap2('hypot', lambda *a: sym.s_sqrt(sym_sum(x * x for x in a)))
    wrap2('pow', lambda a, b: a**b)
    wrap2('fmod', sym.s_fmod)
    wrap2('remainder', sym.s_remainder_ieee)
    wrap2('fsum', lambda it: sym_sum(it))
    wrap2('copysign', lambda a, b: sym.ite(b >= 0, abs(a), -abs(a)))
    wrap2('isclose', lambda a, b: sym.mk_bool((abs(a - b) <= 1e-9 * sym.s_max(abs(a), abs(b))).e))
    return m


# ------------------------------------------------------------------ scipy rotation
class SymRotation:
    """symbolic scipy.spatial.transform.Rotation (single rotation)"""

    def __init__(self, quat=None, mat=None, euler=None):
        self._quat, self._mat, self._euler = quat, mat, euler

    # constructors
    @classmethod
    def from_quat(cls, quat, **k):
        q = list(base(quat).ravel())
        if len(q) != 4 or base(quat).ndim != 1:
            raise ValueError('Expected `quat` to have shape (4,)')
        if k.get('scalar_first'):
            q = q[1:] + q[:1]
        n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
        if not isym(n2):
            if n2 == 0:
                raise ValueError('Found zero norm quaternions in `quat`.')
            n = math.sqrt(n2)
            return cls(quat=[x / n for x in q])
        if sym.E.is_unit(n2.e):
            return cls(quat=q)
        if bool(n2 == 0):
            raise ValueError('Found zero norm quaternions in `quat`.')
        r = cls()
        r._raw, r._n2 = q, n2
        return r

    _raw = None
    _n2 = None

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        a = [angles] if isym(angles) or np.isscalar(angles) else list(base(angles).ravel())
        if degrees:
            a = [sym.s_deg2rad(x) for x in a]
        if len(a) != len(seq):
            raise ValueError('Expected angles to match the sequence')
        r = cls(euler=(seq, a))
        return r

    @classmethod
    def from_matrix(cls, m):
        b = base(m)
        return cls(mat=[[b[i, j] for j in range(3)] for i in range(3)])

    from_dcm = from_matrix

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = list(base(v).ravel())
        if degrees:
            v = [sym.s_deg2rad(x) for x in v]
        nz = [i for i, x in enumerate(v) if isym(x) or x != 0]
        if not nz:
            return cls.identity()
        if len(nz) > 1:
            raise Unencodable('from_rotvec about a general axis')
        return cls(euler=('xyz' [nz[0]], [v[nz[0]]]))

    @classmethod
    def identity(cls, num=None):
        return cls(quat=[0.0, 0.0, 0.0, 1.0])

    # representations
    def quat(self):
        if self._quat is None:
            if self._raw is not None:
                n = sym.s_sqrt(self._n2)
                self._quat = [x / n for x in self._raw]
            elif self._euler is not None:
                seq, a = self._euler
                q = None
                for ax, x in zip(seq, a):
                    h = x * 0.5
                    e = [0.0, 0.0, 0.0, sym.s_cos(h)]
                    e['xyz'.index(ax.lower())] = sym.s_sin(h)
                    if q is None:
                        q = e
                    else:
                        q = qmul(q, e) if seq.isupper() else qmul(e, q)
                self._quat = q
            elif not has_sym(self._mat):
                from scipy.spatial.transform import Rotation
                self._quat = list(Rotation.from_matrix(np.array(self._mat, float)).as_quat())
            else:
                raise Unencodable('quaternion of a symbolic matrix')
        return self._quat

    def mat(self):
        if self._mat is None:
            if self._euler is not None:
                seq, a = self._euler
                m = None
                for ax, x in zip(seq, a):
                    e = elem(ax.lower(), x)
                    if m is None:
                        m = e
                    else:
                        m = mmul(m, e) if seq.isupper() else mmul(e, m)
                self._mat = m
            elif self._raw is not None and self._quat is None:
                r = 1 / self._n2
                self._mat = qmat(self._raw, r)
            else:
                self._mat = qmat(self.quat(), None)
        return self._mat

    def as_quat(self, canonical=False, **k):
        q = list(self.quat())
        if canonical and has_sym(q):
            raise Unencodable('canonical quaternion')
        if k.get('scalar_first'):
            q = q[3:] + q[:3]
        return mk_arr(q, np.float64, (4, ))

    def as_matrix(self):
        return mk_arr([x for r in self.mat() for x in r], np.float64, (3, 3))

    as_dcm = as_matrix

    def as_euler(self, seq, degrees=False):
        m = self.mat()
        flat = [x for r in m for x in r]
        if not has_sym(flat) and not has_sym(self._euler[1] if self._euler else ()):
            from scipy.spatial.transform import Rotation
            r = Rotation.from_euler(*self._euler) if self._euler else Rotation.from_matrix(np.array(m, float))
            return arr(r.as_euler(seq, degrees))
        if self._euler is not None and self._euler[0] == seq and len(seq) == 3:
            a = self._euler[1]
            lim = [math.pi, math.pi / 2, math.pi] if len(set(seq.lower())) == 3 else None
            if lim:
                inr = sym.mk_and(*[sym.mk_and(x > -l, x < l) for x, l in zip(a, lim)])
                if bool(inr):
                    out = a
                    return mk_arr([sym.s_rad2deg(x) if degrees else x for x in out], np.float64, (3, ))
        out = [sym.E.uf(f'euler_{seq}_{i}', flat) for i in range(len(seq))]
        return mk_arr([sym.s_rad2deg(x) if degrees else x for x in out], np.float64, (len(seq), ))

    def apply(self, vectors, inverse=False):
        v = base(vectors)
        m = self.mat()
        if inverse:
            m = [list(c) for c in zip(*m)]

        def one(u):
            return [m[i][0] * u[0] + m[i][1] * u[1] + m[i][2] * u[2] for i in range(3)]

        if v.shape == (3, ):
            return mk_arr(one(v), np.float64, (3, ))
        if v.ndim == 2 and v.shape[1] == 3:
            return mk_arr([x for u in v for x in one(u)], np.float64, v.shape)
        raise ValueError('Expected input of shape (3,) or (P, 3)')

    def inv(self):
        if self._quat is not None:
            q = self._quat
            return SymRotation(quat=[-q[0], -q[1], -q[2], q[3]])
        if self._raw is not None:
            r = SymRotation()
            q = self._raw
            r._raw, r._n2 = [-q[0], -q[1], -q[2], q[3]], self._n2
            return r
        return SymRotation(mat=[list(c) for c in zip(*self.mat())])

    def __mul__(self, o):
        if not _builtin_isinstance(o, SymRotation):
            return NotImplemented
        if self._mat is not None or self._euler is not None or o._mat is not None or o._euler is not None:
            return SymRotation(mat=mmul(self.mat(), o.mat()))
        return SymRotation(quat=qmul(self.quat(), o.quat()))

    single = True

    def magnitude(self):
        q = self.quat()
        if has_sym(q):
            raise Unencodable('rotation magnitude')
        return 2 * math.atan2(math.sqrt(q[0]**2 + q[1]**2 + q[2]**2), abs(q[3]))

    def as_rotvec(self, degrees=False):
        if self._euler and len(self._euler[0]) == 1:
            raise Unencodable('as_rotvec')
        raise Unencodable('as_rotvec')


def elem(ax, x):
    s, c = sym.s_sin(x), sym.s_cos(x)
    if ax == 'x':
        return [[1.0, 0.0, 0.0], [0.0, c, -s], [0.0, s, c]]
    if ax == 'y':
        return [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]
    return [[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]]


def mmul(a, b):
    return [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]


def qmul(p, q):
    px, py, pz, pw = p
    qx, qy, qz, qw = q
    return [
        pw * qx + px * qw + py * qz - pz * qy, pw * qy - px * qz + py * qw + pz * qx, pw * qz + px * qy - py * qx + pz * qw,
        pw * qw - px * qx - py * qy - pz * qz
    ]


def qmat(q, r):
    """matrix of a quaternion; r is 1/|q|^2 (None for unit quaternions)"""
    x, y, z, w = q
    m = [
        [x * x - y * y - z * z + w * w, 2 * (x * y - z * w), 2 * (x * z + y * w)],
        [2 * (x * y + z * w), -(x * x) + y * y - z * z + w * w, 2 * (y * z - x * w)],
        [2 * (x * z - y * w), 2 * (y * z + x * w), -(x * x) - y * y + z * z + w * w],
    ]
    return m if r is None else [[v * r for v in row] for row in m]


# ------------------------------------------------------------------ ODE solvers
class OdeDispatch:
    """solve_ivp / odeint are an arbitrary environment: the harness decides what they return"""
    handler = None

    @classmethod
    def solve_ivp(cls, fun, t_span, y0, method='RK45', t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
        if cls.handler is None:
            raise Unencodable('solve_ivp without a stub')
        return cls.handler.solve_ivp(fun, t_span, y0, method=method, t_eval=t_eval, args=args, events=events, **options)

    @classmethod
    def odeint(cls, func, y0, t, *args, **kw):
        if cls.handler is None:
            raise Unencodable('odeint without a stub')
        return cls.handler.odeint(func, y0, t, *args, **kw)


def make_scipy():
    import scipy
    import scipy.integrate
    import scipy.spatial.transform

    class Mod(types.ModuleType):

        def __init__(self, name, real, **over):
            super().__init__(name)
            self._real = real
            self.__dict__.update(over)
            self.__path__ = []

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            return getattr(self._real, n)

    tr = Mod('scipy.spatial.transform', scipy.spatial.transform, Rotation=SymRotation)
    sp = Mod('scipy.spatial', scipy.spatial, transform=tr)
    integ = Mod('scipy.integrate', scipy.integrate, solve_ivp=OdeDispatch.solve_ivp)
    s = Mod('scipy', scipy, spatial=sp, integrate=integ)
    return {'scipy': s, 'scipy.spatial': sp, 'scipy.spatial.transform': tr, 'scipy.integrate': integ}


def make_jax(jnp):
    jax = types.ModuleType('jax')
    exp = types.ModuleType('jax.experimental')
    ode = types.ModuleType('jax.experimental.ode')
    ode.odeint = OdeDispatch.odeint
    exp.ode = ode
    jax.numpy, jax.experimental = jnp, exp
    jax.Array = JaxArray

    def jit(f=None, **k):
        return f if f is not None else (lambda g: g)

    jax.jit = jit
    lax = types.ModuleType('jax.lax')
    lax.cond = lambda c, t, f, *a: t(*a) if bool(c) else f(*a)
    lax.stop_gradient = lambda x: x
    lax.select = jnp.where
    jax.lax = lax
    jax.config = types.SimpleNamespace(update=lambda *a, **k: None)
    return {'jax': jax, 'jax.numpy': jnp, 'jax.experimental': exp, 'jax.experimental.ode': ode, 'jax.lax': lax}


# ------------------------------------------------------------------ pydantic
class Sentinels:
    """pydantic converts float subclasses to plain floats, so symbolic numbers travel through it as unique floats"""

    def __init__(self):
        self.by_id = {}
        self.of = {}

    def put(self, s):
        key = s.e.get_id()
        if key not in self.by_id:
            f = 7.0e180 * (1 + len(self.by_id) / 1024.0)
            self.by_id[key] = f
            self.of[f] = s
        return self.by_id[key]

    def enc(self, x):
        if _builtin_isinstance(x, SymNum):
            return self.put(x)
        if type(x) in (list, tuple):
            return type(x)(self.enc(v) for v in x)
        if type(x) is dict:
            return {k: self.enc(v) for k, v in x.items()}
        return x

    def dec(self, x):
        if type(x) is float and x in self.of:
            return self.of[x]
        if type(x) in (list, tuple):
            return type(x)(self.dec(v) for v in x)
        if type(x) is dict:
            return {k: self.dec(v) for k, v in x.items()}
        return x


def make_pydantic(sent):
    import pydantic
    m = types.ModuleType('pydantic')
    for n in pydantic.__all__:
        try:
            setattr(m, n, getattr(pydantic, n))
        except AttributeError:
            pass

    class BaseModel(pydantic.BaseModel):

        def __init__(self, **data):
            super().__init__(**{k: sent.enc(v) for k, v in data.items()})
            for k, v in list(self.__dict__.items()):
                self.__dict__[k] = sent.dec(v)

    def wrap(fn):
        try:
            n = len(inspect.signature(fn).parameters)
        except (TypeError, ValueError):
            n = 1
        if n == 1:
            return lambda v: sent.enc(fn(sent.dec(v)))
        return lambda v, info: sent.enc(fn(sent.dec(v), info))

    def mk(real):
        return lambda func, *a, **k: real(wrap(func), *a, **k)

    def deco(real):

        def d(*fields, **k):
            r = real(*fields, **k)

            def g(f):
                raw = f.__func__ if _builtin_isinstance(f, classmethod) else f
                n = len(inspect.signature(raw).parameters)
                if n == 2:

                    def h(cls, v):
                        return sent.enc(raw(cls, sent.dec(v)))
                else:

                    def h(cls, v, info):
                        return sent.enc(raw(cls, sent.dec(v), info))

                return r(classmethod(h))

            return g

        return d

    m.BaseModel = BaseModel
    m.AfterValidator = mk(pydantic.AfterValidator)
    m.BeforeValidator = mk(pydantic.BeforeValidator)
    m.field_validator = deco(pydantic.field_validator)
    return m
