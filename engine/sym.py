"""Symbolic values: z3-backed numbers, booleans and numpy arrays, and the path engine.

The code under test is executed by the ordinary Python interpreter on these values.  Every branch on a symbolic condition
forks the execution (by re-execution with a recorded decision prefix); numpy element operations build z3 terms.
Arithmetic is over the reals (floats met in the code are exact rationals); see DESIGN.md for what that leaves out.
"""
import math
import operator
import sys
from fractions import Fraction

import numpy as np

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402


class Unencodable(BaseException):
    """the code did something the encoding does not cover"""


class PathDead(BaseException):
    """the current path was cut by an unsatisfiable assumption"""


class PathLimit(BaseException):
    """too many decisions"""


E = None  # current Engine


def set_engine(e):
    global E
    E = e


_zero = z3.RealVal(0)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.number)) and not isinstance(x, (bool, np.bool_)) or isinstance(x, (bool, np.bool_))


def to_frac(x):
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    return Fraction(float(x))


def finite(x):
    return isinstance(x, Fraction) or math.isfinite(x)


def rv(x):
    f = to_frac(x)
    return z3.RealVal(f)


def lift(x):
    """number or SymNum/SymBool -> z3 real/int expr"""
    if isinstance(x, SymNum):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    if not is_num(x):
        raise Unencodable(f"cannot lift {type(x)}")
    return rv(x)


def as_sym_operand(x):
    """returns x as SymNum / finite number / special float, or None if it cannot take part in scalar arithmetic"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymNum(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if is_num(x):
        return x
    return None


def ratval(e):
    """Fraction if e is a numeral, else None"""
    if z3.is_rational_value(e):
        return e.as_fraction()
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


class SymBool:
    __slots__ = ('e', )
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __and__(self, o):
        return mk_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return mk_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return mk_not(self)

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, lift_bool(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.e == lift_bool(o))
        return self._num() == o

    def __ne__(self, o):
        return mk_not(self == o)

    def __hash__(self):
        return hash(self.e.get_id())

    def _num(self):
        return SymNum(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymNum) or is_num(o) and not isinstance(o, (bool, np.bool_)):
            return ite(self, o, 0)
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __neg__(self):
        return -self._num()

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(bool)

    def __repr__(self):
        return '<sym bool>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym bool>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def lift_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymNum):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift_bool(x[()])
    return z3.BoolVal(bool(x))


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        if not isinstance(x, (SymBool, SymNum)):
            if not x:
                return False
            continue
        out.append(lift_bool(x))
    if not out:
        return True
    return mk_bool(z3.And(*out) if len(out) > 1 else out[0])


def mk_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        if not isinstance(x, (SymBool, SymNum)):
            if x:
                return True
            continue
        out.append(lift_bool(x))
    if not out:
        return False
    return mk_bool(z3.Or(*out) if len(out) > 1 else out[0])


def mk_not(x):
    if isinstance(x, (SymBool, SymNum)):
        return mk_bool(z3.Not(lift_bool(x)))
    return not x


def ite(c, a, b):
    """elementwise scalar if-then-else; c may be concrete"""
    if isinstance(c, SymNum):
        c = mk_bool(c.e != 0)
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mk_bool(z3.If(c.e, lift_bool(a), lift_bool(b)))
    if a is b:
        return a
    fa = not isinstance(a, (SymNum, SymBool)) and not finite(a)
    fb = not isinstance(b, (SymNum, SymBool)) and not finite(b)
    if fa or fb:
        if fa and fb and a == b:
            return a
        return a if bool(c) else b  # special float in one branch: fork
    ea, eb = lift(a), lift(b)
    if z3.is_int(ea) != z3.is_int(eb):
        ea, eb = real(ea), real(eb)
    if ea.eq(eb):
        return a
    if E.opts.get('fork_ite'):
        return a if E.branch(c.e) else b
    return SymNum(z3.If(c.e, ea, eb))


def _cmp(op):
    g = _cmp0(op)

    def f(self, o):
        r = g(self, o)
        if r is True or r is False:
            # comparing NumPy scalars gives NumPy booleans
            return r if isinstance(self, WeakNum) and not isinstance(o, SymNum) or isinstance(self, WeakNum) and isinstance(o, WeakNum) else np.bool_(r)
        return r

    return f


def _cmp0(op):

    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented
        o = as_sym_operand(o)
        if o is None:
            if op is operator.eq:
                return False
            if op is operator.ne:
                return True
            return NotImplemented
        if not isinstance(o, SymNum):
            if o != o:
                return op is operator.ne
            if not finite(o):
                return bool(op(0.0, float(o)))
        if isinstance(o, SymNum) and o.e.eq(self.e):
            return mk_bool(z3.simplify(op(self.e, lift(o)), som=False))
        if not isinstance(o, (SymNum, bool, int, np.integer, np.bool_)):
            o = E.cut(self.e, o)
        d = by_intervals(op, self.e, o)
        return mk_bool(op(self.e, lift(o))) if d is None else d

    return f


def by_intervals(op, a, o):
    """decide a comparison from the input boxes alone, when they suffice"""
    if E is None or op is operator.ne:
        return None
    ia = E.interval(a)
    if ia is None:
        return None
    simple = z3.is_const(a)
    if isinstance(o, SymNum):
        io = E.interval(o.e)
        if io is None:
            return None
        simple = simple and z3.is_const(o.e)
    else:
        io = (float(o), float(o))
    m = 0.0 if simple else 1e-9 * (1 + max(map(abs, ia + io)))
    below = ia[1] + m < io[0] if not simple else ia[1] < io[0]
    above = ia[0] > io[1] + m if not simple else ia[0] > io[1]
    if op is operator.eq:
        return False if below or above else None
    if op in (operator.le, operator.lt):
        if below or (simple and op is operator.le and ia[1] <= io[0]):
            return True
        if above or (simple and op is operator.lt and ia[0] >= io[1]):
            return False
    elif op in (operator.ge, operator.gt):
        if above or (simple and op is operator.ge and ia[0] >= io[1]):
            return True
        if below or (simple and op is operator.gt and ia[1] <= io[0]):
            return False
    return None


class SymNum:
    """symbolic real (or integer) number"""
    __slots__ = ('e', )
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # ---- arithmetic
    def _bin(self, o, fn, swap=False):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o[()]
            else:
                return NotImplemented
        o = as_sym_operand(o)
        if o is None:
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, s_sub, True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, s_div, True)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, s_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._bin(o, s_mod, True)

    def __pow__(self, o):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._bin(o, s_pow, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    __lt__ = _cmp(operator.lt)
    __le__ = _cmp(operator.le)
    __gt__ = _cmp(operator.gt)
    __ge__ = _cmp(operator.ge)
    __eq__ = _cmp(operator.eq)
    __ne__ = _cmp(operator.ne)

    def __hash__(self):
        return 0  # equal values must have equal hashes: which symbols are equal is decided by __eq__

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        if not z3.is_int(self.e):
            raise TypeError("'SymNum' real cannot be interpreted as an integer")
        return E.concretize(self.e)

    def __int__(self):
        raise Unencodable("int() on a symbolic number outside instrumented code")

    def __float__(self):
        raise Unencodable("float() on a symbolic number outside instrumented code")

    def __complex__(self):
        raise Unencodable("complex() on a symbolic number")

    def __round__(self, n=None):
        return s_round(self, n or 0)

    def __floor__(self):
        return s_floor_int(self)

    def __ceil__(self):
        return s_ceil_int(self)

    def __trunc__(self):
        return s_trunc_int(self)

    def is_integer(self):
        return SymBool(real(self.e) == z3.ToReal(z3.ToInt(real(self.e))))

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        return cast_scalar(self, np.dtype(dt))

    def conjugate(self):
        return self

    def all(self, *a, **k):
        return self != 0

    def any(self, *a, **k):
        return self != 0

    def min(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(np.int64) if z3.is_int(self.e) else np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def T(self):
        return self

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'


# ------------------------------------------------------------------ scalar operations
def weak(x):
    return WeakNum(x.e) if isinstance(x, SymNum) and not z3.is_int(x.e) else x


class WeakNum(SymNum):
    """symbolic number that is a Python float in the real program"""
    __slots__ = ()


def _both_int(a, b):
    return z3.is_int(a) and z3.is_int(b)


def _special(a, b):
    for x in (a, b):
        if not isinstance(x, SymNum) and not finite(x):
            return True
    return False


def _conc(x):
    return float(x) if not isinstance(x, SymNum) else None


def _lift2(a, b):
    ea, eb = lift(a), lift(b)
    if z3.is_int(ea) != z3.is_int(eb):
        # keep integers when the other operand is an integer constant
        if z3.is_int(ea) and isinstance(b, (int, np.integer)) and not isinstance(b, bool):
            return ea, z3.IntVal(int(b))
        if z3.is_int(eb) and isinstance(a, (int, np.integer)) and not isinstance(a, bool):
            return z3.IntVal(int(a)), eb
        return real(ea), real(eb)
    return ea, eb


def s_add(a, b):
    if _special(a, b):
        return float('nan') if any(not isinstance(x, SymNum) and x != x for x in (a, b)) else next(
            float(x) for x in (a, b) if not isinstance(x, SymNum)
        )
    if not isinstance(a, SymNum) and a == 0:
        return b
    if not isinstance(b, SymNum) and b == 0:
        return a
    ea, eb = _lift2(a, b)
    return SymNum(ea + eb)


def s_neg(a):
    return -a


def s_sub(a, b):
    if _special(a, b):
        return s_add(a, -b) if not isinstance(b, SymNum) else s_add(a, SymNum(-b.e))
    if not isinstance(b, SymNum) and b == 0:
        return a
    if not isinstance(a, SymNum) and a == 0:
        return -b
    ea, eb = _lift2(a, b)
    if ea.eq(eb):
        return 0.0
    return SymNum(ea - eb)


def s_mul(a, b):
    if _special(a, b):
        sp = next(x for x in (a, b) if not isinstance(x, SymNum))
        other = b if sp is a else a
        if sp != sp:
            return float('nan')
        if bool(other > 0):
            return float(sp)
        if bool(other < 0):
            return -float(sp)
        return float('nan')
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, SymNum):
            if x == 0:
                return 0.0
            if x == 1:
                return y
    ea, eb = _lift2(a, b)
    return SymNum(ea * eb)


def s_div(a, b):
    if _special(a, b):
        if not isinstance(b, SymNum):
            return 0.0 if b == b else float('nan')
        return s_mul(a, b)  # sign of infinity
    if not isinstance(b, SymNum):
        if b == 0:
            E.note('division by a literal zero')
            if bool(a == 0):
                return float('nan')
            return float('inf') if bool(a > 0) else float('-inf')
        return SymNum(real(lift(a)) * rv(1 / to_frac(b)))
    if not isinstance(a, SymNum) and a == 0:
        return 0.0
    r = E.recip(real(b.e))
    if not isinstance(a, SymNum) and a == 1:
        return SymNum(r)
    ea = real(lift(a))
    return SymNum(ea * r)


def s_floor_int(a):
    if z3.is_int(a.e):
        return a
    if E.opts.get('eager_int'):
        return E.concretize_floor(a.e)
    return SymNum(z3.ToInt(a.e))


def s_ceil_int(a):
    if z3.is_int(a.e):
        return a
    if E.opts.get('eager_int'):
        return -E.concretize_floor(-a.e)
    return SymNum(-z3.ToInt(-a.e))


def s_trunc_int(a):
    if z3.is_int(a.e):
        return a
    if E.opts.get('eager_int'):
        return E.concretize_floor(a.e) if E.branch(a.e >= 0) else -E.concretize_floor(-a.e)
    return SymNum(z3.If(a.e >= 0, z3.ToInt(a.e), -z3.ToInt(-a.e)))


def s_floor(a):
    r = s_floor_int(a)
    return SymNum(real(r.e)) if isinstance(r, SymNum) else float(r)


def s_to_float(r):
    return SymNum(real(r.e)) if isinstance(r, SymNum) else float(r)


def s_round(a, n=0):
    if n != 0:
        s = Fraction(10)**n
        return s_round(a * s) * (1 / s)
    if z3.is_int(a.e):
        return a
    # round half to even
    f = z3.ToInt(a.e)
    fr = a.e - z3.ToReal(f)
    half = z3.RealVal(Fraction(1, 2))
    even = f % 2 == 0
    return SymNum(z3.ToReal(z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(even, f, f + 1)))))


def s_floordiv(a, b):
    if _both_int(lift(a) if isinstance(a, SymNum) else z3.IntVal(0), lift(b) if isinstance(b, SymNum) else z3.IntVal(0)):
        ia = a.e if isinstance(a, SymNum) else (z3.IntVal(int(a)) if isinstance(a, (int, np.integer)) else None)
        ib = b.e if isinstance(b, SymNum) else (z3.IntVal(int(b)) if isinstance(b, (int, np.integer)) else None)
        if ia is not None and ib is not None and not isinstance(b, SymNum) and int(b) > 0:
            return SymNum(ia / ib)
    q = s_div(a, b)
    if not isinstance(q, SymNum):
        return math.floor(q) if finite(q) else q
    return s_floor(q)


def s_mod(a, b):
    if _special(a, b):
        return float('nan')
    if isinstance(b, SymNum):
        q = s_floordiv(a, b)
        return a - b * q
    if b == 0:
        return float('nan')
    ia = a.e if isinstance(a, SymNum) else None
    if ia is not None and z3.is_int(ia) and isinstance(b, (int, np.integer)) and b > 0:
        return SymNum(ia % z3.IntVal(int(b)))
    fb = to_frac(b)
    k = z3.ToReal(z3.ToInt(real(a.e) * rv(1 / fb)))
    return SymNum(real(a.e) - k * rv(fb))


def s_fmod(a, b):
    if _special(a, b) or isinstance(b, SymNum) or b == 0:
        raise Unencodable('fmod')
    t = s_trunc_int(SymNum(real(a.e) * rv(1 / to_frac(b))))
    return a - SymNum(real(t.e)) * b


def s_remainder_ieee(a, b):
    """math.remainder: a - b*round_half_even(a/b)"""
    if _special(a, b) or isinstance(b, SymNum) or b == 0:
        raise Unencodable('math.remainder')
    return a - s_round(SymNum(real(a.e) * rv(1 / to_frac(b)))) * b


def s_pow(a, b):
    if isinstance(b, SymNum):
        raise Unencodable('symbolic exponent')
    if not finite(b):
        raise Unencodable('special exponent')
    fb = to_frac(b)
    if not isinstance(a, SymNum):
        return float(a)**float(fb)
    if fb.denominator == 1:
        n = int(fb)
        if n == 0:
            return 1.0
        if n < 0:
            return s_div(1, s_pow(a, -n))
        r = a
        for _ in range(n - 1):
            r = s_mul(r, a)
        return r
    if fb == Fraction(1, 2):
        return SymNum(E.sqrt(real(a.e)))
    return SymNum(E.powf(real(a.e), fb))


def s_sqrt(a):
    if not isinstance(a, (SymNum, SymBool)):
        return np.sqrt(float(a))
    return SymNum(E.sqrt(real(lift(a))))


def s_sin(a):
    if not isinstance(a, SymNum):
        return math.sin(a) if finite(a) else float('nan')
    return E.trig(real(a.e))[0]


def s_cos(a):
    if not isinstance(a, SymNum):
        return math.cos(a) if finite(a) else float('nan')
    return E.trig(real(a.e))[1]


def s_tan(a):
    if not isinstance(a, SymNum):
        return math.tan(a)
    s, c = E.trig(real(a.e))
    return s_div(s, c) if isinstance(c, SymNum) else s / c


def _fn1(name, conc):

    def f(a):
        if not isinstance(a, SymNum):
            return conc(a)
        return SymNum(E.ufun(name, [real(a.e)]))

    return f


s_asin = _fn1('asin', math.asin)
s_acos = _fn1('acos', math.acos)
s_atan = _fn1('atan', math.atan)
s_exp = _fn1('exp', math.exp)
s_log = _fn1('log', math.log)
s_tanh = _fn1('tanh', math.tanh)


def s_atan2(y, x):
    if not isinstance(y, SymNum) and not isinstance(x, SymNum):
        return math.atan2(y, x)
    return SymNum(E.ufun('atan2', [real(lift(y)), real(lift(x))]))


def s_hypot(x, y):
    return s_sqrt(x * x + y * y)


def s_min(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if not isinstance(a, SymNum) and a != a or not isinstance(b, SymNum) and b != b:
            return float('nan')
        return ite(a <= b, a, b)
    return np.minimum(a, b)


def s_max(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if not isinstance(a, SymNum) and a != a or not isinstance(b, SymNum) and b != b:
            return float('nan')
        return ite(a >= b, a, b)
    return np.maximum(a, b)


def s_sign(a):
    if not isinstance(a, SymNum):
        return np.sign(a)
    return SymNum(z3.If(a.e > 0, z3.RealVal(1), z3.If(a.e < 0, z3.RealVal(-1), z3.RealVal(0))))


def s_isnan(a):
    return False if isinstance(a, (SymNum, SymBool)) else bool(np.isnan(a))


def s_isinf(a):
    return False if isinstance(a, (SymNum, SymBool)) else bool(np.isinf(a))


def s_isfinite(a):
    return True if isinstance(a, (SymNum, SymBool)) else bool(np.isfinite(a))


RAD = Fraction(np.pi) / 180
DEG = Fraction(180) / Fraction(np.pi)


def s_deg2rad(a):
    return a * RAD if isinstance(a, SymNum) else np.deg2rad(a)


def s_rad2deg(a):
    return a * DEG if isinstance(a, SymNum) else np.rad2deg(a)


def isym(x):
    return isinstance(x, (SymNum, SymBool))


def cast_scalar(x, dt):
    """value of x after conversion to numpy dtype dt"""
    if isinstance(x, SymBool):
        if dt.kind == 'b':
            return x
        x = x._num()
    if isinstance(x, SymNum):
        if dt.kind == 'O':
            return x
        if dt.kind == 'f':
            e = real(x.e)
            if dt.itemsize < 4:
                d = E.fresh('half', defn=None)
                E.assume_e(z3.And(d >= rv(Fraction(-1, 2048)), d <= rv(Fraction(1, 2048))))
                E.inexact = True
                return SymNum(e * (1 + d))
            return SymNum(e) if z3.is_int(x.e) or isinstance(x, WeakNum) else x
        if dt.kind in 'iu':
            t = s_trunc_int(x)
            return t
        if dt.kind == 'b':
            return SymBool(x.e != 0)
        raise Unencodable(f'cast to {dt}')
    if dt.kind == 'O':
        return x
    if dt.kind == 'f':
        if x is None:
            return np.float64('nan')
        return np.float64(dt.type(x))
    return dt.type(x)


# ------------------------------------------------------------------ elementwise dispatch
def _lt(a, b):
    return a < b


UF = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul, 'true_divide': operator.truediv, 'divide': operator.truediv,
    'floor_divide': operator.floordiv, 'remainder': operator.mod, 'mod': operator.mod, 'power': operator.pow, 'float_power': operator.pow,
    'negative': operator.neg, 'positive': lambda a: a, 'absolute': abs, 'fabs': abs, 'square': lambda a: a * a,
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt, 'greater_equal': operator.ge,
    'equal': operator.eq, 'not_equal': operator.ne,
    'logical_and': mk_and, 'logical_or': mk_or, 'logical_not': mk_not,
    'logical_xor': lambda a, b: SymBool(z3.Xor(lift_bool(a), lift_bool(b))),
    'bitwise_and': mk_and, 'bitwise_or': mk_or, 'invert': mk_not, 'bitwise_xor': lambda a, b: SymBool(z3.Xor(lift_bool(a), lift_bool(b))),
    'sin': s_sin, 'cos': s_cos, 'tan': s_tan, 'arcsin': s_asin, 'arccos': s_acos, 'arctan': s_atan, 'arctan2': s_atan2,
    'exp': s_exp, 'log': s_log, 'tanh': s_tanh, 'sqrt': s_sqrt, 'hypot': s_hypot,
    'minimum': s_min, 'maximum': s_max, 'fmin': s_min, 'fmax': s_max, 'sign': s_sign,
    'isnan': s_isnan, 'isinf': s_isinf, 'isfinite': s_isfinite,
    'floor': lambda a: s_floor(a) if isinstance(a, SymNum) else np.floor(a),
    'ceil': lambda a: s_to_float(s_ceil_int(a)) if isinstance(a, SymNum) else np.ceil(a),
    'trunc': lambda a: s_to_float(s_trunc_int(a)) if isinstance(a, SymNum) else np.trunc(a),
    'rint': lambda a: s_round(a) if isinstance(a, SymNum) else np.rint(a),
    'deg2rad': s_deg2rad, 'radians': s_deg2rad, 'rad2deg': s_rad2deg, 'degrees': s_rad2deg, 'fmod': s_fmod,
    'conjugate': lambda a: a, 'reciprocal': lambda a: 1 / a,
    'copysign': lambda a, b: ite(b >= 0, abs(a), -abs(a)), 'heaviside': lambda a, b: ite(a < 0, 0.0, ite(a > 0, 1.0, b)),
}  # yapf: disable

BOOL_UF = {
    'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or', 'logical_not', 'logical_xor',
    'isnan', 'isinf', 'isfinite'
}


class SymArr(np.ndarray):
    """object-dtype ndarray whose elements are numbers or symbolic values; reports the dtype the real array would have"""

    _sdt = np.dtype(np.float64)
    _jax = False

    def __array_finalize__(self, obj):
        self._sdt = getattr(obj, '_sdt', np.dtype(np.float64))
        self._jax = getattr(obj, '_jax', False)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    @property
    def dtype(self):
        return self._sdt

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dtype)
        return mk_arr([cast_scalar(x, dt) for x in base(self).ravel()], dt, self.shape, self._jax)

    def copy(self, order='C'):
        r = mk_view(np.array(base(self), dtype=object, copy=True), self._sdt, self._jax)
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __setitem__(self, idx, val):
        if self._jax:
            raise TypeError("JAX arrays are immutable")
        set_item(self, idx, val)

    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def _inplace(self, o, op):
        r = op(self, o)
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._jx(o, operator.add)

    def _jx(self, o, op):
        if self._jax:
            return op(self, o)
        return self._inplace(o, op)

    def __isub__(self, o):
        return self._jx(o, operator.sub)

    def __imul__(self, o):
        return self._jx(o, operator.mul)

    def __itruediv__(self, o):
        return self._jx(o, operator.truediv)

    def __ipow__(self, o):
        return self._jx(o, operator.pow)

    def __imod__(self, o):
        return self._jx(o, operator.mod)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.ravel()[0])

    def all(self, axis=None, **k):
        return reduce_(mk_and, self, axis, True)

    def any(self, axis=None, **k):
        return reduce_(mk_or, self, axis, False)

    def sum(self, axis=None, **k):
        return reduce_(operator.add, self, axis, 0)

    def prod(self, axis=None, **k):
        return reduce_(operator.mul, self, axis, 1)

    def min(self, axis=None, **k):
        return reduce_(s_min, self, axis, None)

    def max(self, axis=None, **k):
        return reduce_(s_max, self, axis, None)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def clip(self, a_min=None, a_max=None, min=None, max=None, out=None, **k):
        r = np_clip(self, a_min if a_min is not None else min, a_max if a_max is not None else max)
        if out is not None:
            out[...] = r
            return out
        return r

    def dot(self, o, out=None):
        return np_dot(self, o)

    def __matmul__(self, o):
        return np_matmul(self, o)

    def __rmatmul__(self, o):
        return np_matmul(o, self)

    def round(self, decimals=0, out=None):
        return apply(lambda x: s_round(x, decimals) if isinstance(x, SymNum) else np.round(x, decimals), self)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return weak(base(self).item(*a))

    def nonzero(self):
        return np.nonzero(np.array([bool(x) for x in base(self).ravel()]).reshape(self.shape))

    @property
    def at(self):
        return _At(self)

    def block_until_ready(self):
        return self

    @property
    def itemsize(self):
        return self._sdt.itemsize

    def __repr__(self):
        return '<sym array>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym array>'


class _At:

    def __init__(self, a):
        self.a = a

    def __getitem__(self, idx):
        return _AtIdx(self.a, idx)


class _AtIdx:

    def __init__(self, a, idx):
        self.a, self.idx = a, idx

    def _do(self, v, op=None):
        r = self.a.copy()
        r._jax = False
        r[self.idx] = v if op is None else op(r[self.idx], v)
        r._jax = self.a._jax
        return r

    def set(self, v, **k):
        return self._do(v)

    def add(self, v, **k):
        return self._do(v, operator.add)

    def multiply(self, v, **k):
        return self._do(v, operator.mul)

    mul = multiply

    def min(self, v, **k):
        return self._do(v, lambda a, b: apply(s_min, a, b))

    def max(self, v, **k):
        return self._do(v, lambda a, b: apply(s_max, a, b))


def base(a):
    """plain object ndarray view of a SymArr (or object array made from anything array-like)"""
    if isinstance(a, SymArr):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return a
        r = np.empty(a.shape, dtype=object)
        flat = r.reshape(-1) if a.size else r
        for i, x in enumerate(np.asarray(a).ravel()):
            flat[i] = x
        return r
    if isym(a) or is_num(a) or a is None or isinstance(a, str):
        r = np.empty((), dtype=object)
        r[()] = a
        return r
    if hasattr(a, '__array__') and not isinstance(a, (list, tuple)):
        return base(np.asarray(a))
    # nested sequence
    a = list(a)
    if not a:
        return np.empty((0, ), dtype=object)
    parts = [base(x) for x in a]
    shapes = {p.shape for p in parts}
    if len(shapes) != 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    r = np.empty((len(parts), ) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts):
        r[i] = p if p.shape else p[()]
    return r


def mk_view(objarr, sdt, jax=False):
    r = objarr.view(SymArr)
    r._sdt = np.dtype(sdt)
    r._jax = jax
    return r


def mk_arr(flat, sdt, shape, jax=False):
    r = np.empty(shape, dtype=object)
    f = r.reshape(-1)
    for i, x in enumerate(flat):
        f[i] = SymNum(x.e) if isinstance(x, WeakNum) else x
    return mk_view(r, sdt, jax)


def infer_dt(objs):
    """numpy dtype the real array would get from these elements"""
    k = np.dtype(bool)
    first = True
    for x in objs:
        if isinstance(x, SymBool):
            d = np.dtype(bool)
        elif isinstance(x, SymNum):
            d = x.dtype
        elif isinstance(x, (bool, np.bool_)):
            d = np.dtype(bool)
        elif isinstance(x, (int, np.integer)):
            d = np.dtype(np.int64)
        elif isinstance(x, (float, np.floating, Fraction)):
            d = np.dtype(np.float64)
        else:
            return np.dtype(object)
        k = d if first else np.promote_types(k, d)
        first = False
    return np.dtype(np.float64) if first else k


def arr(x, dtype=None, copy=True, jax=False):
    """np.array"""
    if isinstance(x, SymArr):
        o, sdt = base(x), x._sdt
    elif isinstance(x, np.ndarray):
        o, sdt = base(x), x.dtype
    else:
        o = base(x)
        sdts = list(_dts(x))
        sdt = infer_dt(list(o.ravel()))
        for d in sdts:
            sdt = np.promote_types(sdt, d) if sdt != np.dtype(object) and o.size else sdt
    dt = np.dtype(dtype) if dtype is not None else sdt
    if dt == np.dtype(object) and dtype is None and any(v is None or isinstance(v, str) for v in o.ravel()):
        return np.array(x, dtype=None)
    return mk_arr([cast_scalar(v, dt) for v in o.ravel()], dt, o.shape, jax)


def _dts(x):
    if isinstance(x, SymArr):
        yield x._sdt
    elif isinstance(x, np.ndarray):
        yield x.dtype
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _dts(y)


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, SymArr):
        b = base(idx)
        if idx._sdt.kind == 'b' or any(isinstance(v, SymBool) for v in b.ravel()):
            return np.array([bool(v) for v in b.ravel()], dtype=bool).reshape(b.shape)
        return np.array([operator.index(v) for v in b.ravel()], dtype=int).reshape(b.shape)
    if isinstance(idx, SymNum):
        return operator.index(idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    return idx


def set_item(a, idx, val):
    b = base(a)
    dt = a._sdt
    mask = None
    if isinstance(idx, SymArr) and idx.shape == a.shape and any(isinstance(v, SymBool) for v in base(idx).ravel()):
        mask = base(idx)
    if mask is not None:
        v = np.broadcast_to(base(val), a.shape)
        for i in np.ndindex(*a.shape):
            b[i] = ite(mask[i], cast_scalar(v[i], dt), b[i])
        return
    idx = fix_index(idx)
    if isinstance(val, (np.ndarray, list, tuple)):
        o = base(val)
        cv = np.empty(o.shape, dtype=object)
        for i in np.ndindex(*o.shape):
            cv[i] = cast_scalar(o[i], dt)
        if cv.ndim == 0:
            cv = cv[()]
        elif cv.size == 1 and not isinstance(b[idx], np.ndarray):
            cv = cv.ravel()[0]
        b[idx] = cv
    else:
        if not isym(val) and not is_num(val) and val is not None:
            b[idx] = np.array(0.0, dtype=dt).dtype.type(val)  # let numpy raise what it raises
            return
        tgt = b[idx]
        if isinstance(tgt, np.ndarray):
            c = np.empty((), dtype=object)
            c[()] = cast_scalar(val, dt)
            b[idx] = c
        else:
            b[idx] = cast_scalar(val, dt)


def out_dt(name, ins, res):
    if name in BOOL_UF:
        return np.dtype(bool)
    dts = []
    for x in ins:
        if isinstance(x, SymArr):
            dts.append(x._sdt)
        elif isinstance(x, np.ndarray):
            dts.append(x.dtype)
        elif isinstance(x, WeakNum) or isinstance(x, float) and not isinstance(x, np.floating):
            dts.append(np.dtype(np.float16))  # Python floats adopt the array's precision
        elif isinstance(x, np.floating):
            dts.append(x.dtype)
        elif isinstance(x, SymNum):
            dts.append(np.dtype(np.float64) if not z3.is_int(x.e) else np.dtype(np.int64))
        elif isinstance(x, (bool, np.bool_, SymBool)):
            dts.append(np.dtype(bool))
        elif isinstance(x, (int, np.integer)):
            dts.append(np.dtype(np.int8))
        elif isinstance(x, (list, tuple)):
            dts.append(infer_dt(list(base(x).ravel())))
    d = dts[0] if dts else np.dtype(np.float64)
    for y in dts[1:]:
        d = np.promote_types(d, y)
    if name in ('true_divide', 'divide', 'sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'deg2rad', 'rad2deg', 'arctan2', 'arcsin', 'arccos', 'arctan') \
            and d.kind != 'f':
        d = np.dtype(np.float64)
    if d in (np.dtype(object), np.dtype(np.float16)):
        d = np.dtype(np.float64)
    return d


def apply(fn, *ins, name=None):
    """broadcast fn over the inputs; scalars in -> scalar out"""
    bs = [base(x) for x in ins]
    jax = any(isinstance(x, SymArr) and x._jax for x in ins)
    if all(b.ndim == 0 for b in bs):
        r = fn(*[b[()] for b in bs])
        if any(isinstance(x, np.ndarray) for x in ins) and False:
            return mk_arr([r], out_dt(name, ins, r), (), jax)
        return r
    bb = np.broadcast_arrays(*bs)
    shape = bb[0].shape
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        r[i] = fn(*[b[i] for b in bb])
    return mk_view(r, out_dt(name, ins, r), jax)


def _float_safe(fn):
    """numpy semantics for plain floats (division by zero etc.)"""

    def g(*a):
        if any(isym(x) for x in a):
            try:
                return fn(*a)
            except TypeError as e:
                raise Unencodable(f'{fn} on {a}: {e}') from e
        return None

    return g


def array_ufunc(ufunc, method, *inputs, **kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('subok', None)
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        fns = {'add': (operator.add, 0), 'multiply': (operator.mul, 1), 'logical_and': (mk_and, True), 'logical_or': (mk_or, False),
               'minimum': (s_min, None), 'maximum': (s_max, None), 'bitwise_or': (mk_or, False), 'bitwise_and': (mk_and, True)}
        if name not in fns:
            raise Unencodable(f'{name}.reduce')
        a = inputs[0] if isinstance(inputs[0], SymArr) else arr(inputs[0])
        return reduce_(fns[name][0], a, axis, fns[name][1])
    if method == 'outer' and name in UF:
        a, b = (base(x) for x in inputs)
        a2 = a.reshape(a.shape + (1, ) * b.ndim)
        return apply(UF[name], mk_view(a2, out_dt(name, inputs, None)), inputs[1], name=name)
    if method != '__call__':
        raise Unencodable(f'ufunc method {name}.{method}')
    if name == 'matmul':
        res = np_matmul(*inputs)
    else:
        if name == 'clip':
            res = np_clip(*inputs)
        elif name not in UF:
            raise Unencodable(f'ufunc {name}')
        else:
            fn = UF[name]

            def f(*a):
                a = tuple(x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in a)
                if any(isym(x) for x in a):
                    r = fn(*[x.item() if isinstance(x, np.generic) else x for x in a])
                    if r is NotImplemented:
                        raise Unencodable(f'{name} on {a}')
                    return r
                with np.errstate(all='ignore'):
                    return ufunc(*[np.float64(x) if isinstance(x, (float, Fraction)) else x for x in a])

            res = apply(f, *inputs, name=name)
    if where is not True:
        if out is None:
            raise Unencodable('ufunc where= without out=')
        o = out[0] if isinstance(out, tuple) else out
        res = apply(ite, where, res, o)
    if dtype is not None and isinstance(res, SymArr):
        res = res.astype(dtype)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArr):
            set_item(o, Ellipsis, res)
        else:
            raise Unencodable('symbolic result written into a plain float array')
        return o
    return res


def reduce_(fn, a, axis, init):
    b = base(a)
    if axis is None or b.ndim <= 1:
        items = list(b.ravel())
        if fn in (mk_and, mk_or):
            return fn(*items)
        if not items:
            if init is None:
                raise ValueError("zero-size array to reduction operation")
            return np.float64(init)
        r = items[0]
        for x in items[1:]:
            r = fn(r, x)
        return r
    if isinstance(axis, tuple):
        raise Unencodable('tuple axis')
    m = np.moveaxis(b, axis, -1)
    r = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = reduce_(fn, m[i], None, init)
    sdt = np.dtype(bool) if fn in (mk_and, mk_or) else getattr(a, '_sdt', np.dtype(np.float64))
    return mk_view(r, sdt, getattr(a, '_jax', False))


def np_clip(a, lo, hi):
    r = a
    if lo is not None:
        r = apply(_clip_max, r, lo, name='maximum')
    if hi is not None:
        r = apply(_clip_min, r, hi, name='minimum')
    if r is a and isinstance(a, np.ndarray):
        r = a.copy()
    return r


def _clip_max(x, lo):
    """np.maximum(x, lo)"""
    if isym(x) or isym(lo):
        if not isym(lo):
            if lo != lo:
                return np.float64('nan')
            if lo == -math.inf:
                return x
        return ite(x >= lo, x, lo)
    return np.maximum(x, lo)


def _clip_min(x, hi):
    if isym(x) or isym(hi):
        if not isym(hi):
            if hi != hi:
                return np.float64('nan')
            if hi == math.inf:
                return x
        return ite(x <= hi, x, hi)
    return np.minimum(x, hi)


def _mm(a, b):
    """matrix product of object arrays with ndim in (1, 2)"""
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.ndim > 2 or b.ndim > 2:
        raise Unencodable('matmul with more than 2 dimensions')
    a2 = a.reshape(1, -1) if a.ndim == 1 else a
    b2 = b.reshape(-1, 1) if b.ndim == 1 else b
    if a2.shape[1] != b2.shape[0]:
        raise ValueError(
            "matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature (n?,k),(k,m?)->(n?,m?) "
            f"(size {b2.shape[0]} is different from {a2.shape[1]})"
        )
    r = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            s = 0.0
            for k in range(a2.shape[1]):
                s = s + _m(a2[i, k], b2[k, j])
            r[i, j] = s
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        return r[0]
    if b.ndim == 1:
        return r[:, 0]
    return r


def _m(x, y):
    return x * y


def np_matmul(a, b):
    r = _mm(base(a), base(b))
    if not isinstance(r, np.ndarray):
        return r
    return mk_view(r, out_dt('matmul', (a, b), r), any(isinstance(x, SymArr) and x._jax for x in (a, b)))


def np_dot(a, b, out=None):
    if out is not None:
        set_item(out, Ellipsis, np_dot(a, b))
        return out
    ba, bb = base(a), base(b)
    if ba.ndim == 0 or bb.ndim == 0:
        return a * b
    return np_matmul(a, b)


def np_where(c, *xy):
    if not xy:
        return arr(c).nonzero()
    return apply(ite, c, *xy, name='where')


def _wrap_native(func):
    """run numpy's own implementation on plain object arrays"""

    def conv(x):
        if isinstance(x, SymArr):
            return base(x)
        if isym(x):
            return base(x)
        if isinstance(x, (list, tuple)):
            if x and all(isym(y) or is_num(y) for y in x) and any(isym(y) for y in x):
                return base(x)
            return [conv(y) for y in x] if type(x) is list else tuple(conv(y) for y in x)
        return x

    def f(*args, **kwargs):
        jax = _anyjax(args)
        dts = [d for d in _dts(list(args))]
        r = func(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})

        def back(r):
            if isinstance(r, np.ndarray) and r.dtype == object:
                d = dts[0] if dts else np.dtype(np.float64)
                for y in dts[1:]:
                    d = np.promote_types(d, y)
                return mk_view(r, d, jax)
            if isinstance(r, (list, tuple)):
                return type(r)(back(x) for x in r)
            return r

        return back(r)

    return f


def _anyjax(x):
    if isinstance(x, SymArr):
        return x._jax
    if isinstance(x, (list, tuple)):
        return any(_anyjax(y) for y in x)
    return False


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or keepdims:
        raise Unencodable('norm')
    if axis is None:
        return s_sqrt(reduce_(operator.add, apply(lambda v: v * v, x), None, 0))
    s = reduce_(operator.add, apply(lambda v: v * v, x), axis, 0)
    return apply(s_sqrt, s)


def np_cross(a, b, **k):
    a, b = base(a), base(b)
    if a.shape != (3, ) or b.shape != (3, ):
        raise Unencodable('cross')
    return mk_arr(
        [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], np.float64, (3, )
    )


def np_array_equal(a, b, equal_nan=False):
    a, b = base(a), base(b)
    if a.shape != b.shape:
        return False
    return mk_and(*[x == y for x, y in zip(a.ravel(), b.ravel())])


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return apply(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b, name='less')


def np_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = apply(ite, c, v, r, name='where')
    return r


def _square(a):
    b = base(a)
    if b.ndim != 2 or b.shape[0] != b.shape[1] or b.shape[0] > 4:
        raise Unencodable('linear algebra beyond 4x4')
    return b.tolist()


def _zero(x):
    return is_num(x) and x == 0


def _det(m):
    if len(m) == 1:
        return m[0][0]
    r = 0.0
    for j, x in enumerate(m[0]):
        if not _zero(x):
            t = x * _det([row[:j] + row[j + 1:] for row in m[1:]])
            r = r + t if j % 2 == 0 else r - t
    return r


def np_inv(a):
    m = _square(a)
    n = len(m)
    if all(_zero(m[i][j]) for i in range(n) for j in range(n) if i != j):
        return mk_arr([1.0 / m[i][i] if i == j else 0.0 for i in range(n) for j in range(n)], np.float64, (n, n), _anyjax(a))
    d = _det(m)
    if is_num(d) and d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    out = []
    for i in range(n):
        for j in range(n):
            c = _det([row[:i] + row[i + 1:] for k, row in enumerate(m) if k != j]) if n > 1 else 1.0
            out.append((c if (i + j) % 2 == 0 else -c) / d)
    return mk_arr(out, np.float64, (n, n), _anyjax(a))


def _into(r, out):
    """the out= argument of numpy functions"""
    if out is None:
        return r
    set_item(out, Ellipsis, r)
    return out


AF = {
    'select': np_select, 'inv': np_inv, 'det': lambda a: _det(_square(a)), 'solve': lambda a, b: np_matmul(np_inv(a), b),
    'clip': lambda a, a_min=None, a_max=None, out=None, **k: _into(np_clip(a, a_min, a_max), out),
    'where': np_where,
    'any': lambda a, axis=None, **k: reduce_(mk_or, arr(a) if not isinstance(a, SymArr) else a, axis, False),
    'all': lambda a, axis=None, **k: reduce_(mk_and, arr(a) if not isinstance(a, SymArr) else a, axis, True),
    'sum': lambda a, axis=None, **k: reduce_(operator.add, a, axis, 0),
    'prod': lambda a, axis=None, **k: reduce_(operator.mul, a, axis, 1),
    'amin': lambda a, axis=None, **k: reduce_(s_min, a, axis, None),
    'amax': lambda a, axis=None, **k: reduce_(s_max, a, axis, None),
    'min': lambda a, axis=None, **k: reduce_(s_min, a, axis, None),
    'max': lambda a, axis=None, **k: reduce_(s_max, a, axis, None),
    'mean': lambda a, axis=None, **k: arr(a).mean(axis),
    'copy': lambda a, **k: arr(a),
    'dot': np_dot, 'matmul': np_matmul, 'inner': np_dot, 'vdot': np_dot, 'cross': np_cross, 'norm': np_norm,
    'array_equal': np_array_equal, 'isclose': np_isclose,
    'allclose': lambda a, b, **k: reduce_(mk_and, arr(np_isclose(a, b, **k)), None, True),
    'zeros_like': lambda a, dtype=None, **k: mk_arr([cast_scalar(0, np.dtype(dtype or a.dtype))] * int(np.prod(np.shape(base(a)))),
                                                    dtype or a.dtype, base(a).shape, _anyjax(a)),
    'ones_like': lambda a, dtype=None, **k: mk_arr([cast_scalar(1, np.dtype(dtype or a.dtype))] * int(np.prod(np.shape(base(a)))),
                                                   dtype or a.dtype, base(a).shape, _anyjax(a)),
    'empty_like': lambda a, dtype=None, **k: mk_arr([cast_scalar(0, np.dtype(dtype or a.dtype))] * int(np.prod(np.shape(base(a)))),
                                                    dtype or a.dtype, base(a).shape, _anyjax(a)),
    'full_like': lambda a, v, dtype=None, **k: mk_arr([cast_scalar(v, np.dtype(dtype or a.dtype))] * int(np.prod(np.shape(base(a)))),
                                                      dtype or a.dtype, base(a).shape, _anyjax(a)),
    'round': lambda a, decimals=0, **k: arr(a).round(decimals), 'around': lambda a, decimals=0, **k: arr(a).round(decimals),
    'fix': lambda a, **k: apply(UF['trunc'], a), 'nan_to_num': lambda a, *x, **k: a,
    'sign': lambda a: apply(s_sign, a), 'shape': lambda a: base(a).shape, 'ndim': lambda a: base(a).ndim, 'size': lambda a, axis=None: base(a).size,
    'array_repr': lambda a, *x, **k: '<sym array>', 'array_str': lambda a, *x, **k: '<sym array>', 'array2string': lambda a, *x, **k: '<sym array>',
    'isscalar': lambda a: isym(a) or np.isscalar(a),
    'unwrap': None, 'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True, 'may_share_memory': None, 'real': lambda a: a,
    'copyto': lambda dst, src, **k: set_item(dst, Ellipsis, src),
    'einsum': None, 'linspace': None, 'interp': None, 'nonzero': lambda a: arr(a).nonzero(),
}  # yapf: disable
for _n in ('insert', 'append', 'vstack', 'hstack', 'stack', 'concatenate', 'column_stack', 'row_stack', 'dstack', 'reshape', 'ravel', 'transpose',
           'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'delete', 'roll', 'flip', 'split', 'array_split', 'repeat', 'tile',
           'broadcast_to', 'broadcast_arrays', 'swapaxes', 'moveaxis', 'diag', 'diagonal', 'block', 'fliplr', 'flipud', 'take', 'outer', 'kron',
           'diagflat', 'triu', 'tril', 'tensordot', 'trace', 'cumsum'):  # yapf: disable
    AF[_n] = 'native'
AF['shares_memory'] = AF['may_share_memory'] = lambda a, b, **k: np.shares_memory(base(a), base(b))


def array_function(func, types, args, kwargs):
    h = AF.get(func.__name__, 0)
    if h == 'native' or not h:
        try:
            return _wrap_native(func)(*args, **kwargs)
        except (TypeError, Unencodable) as e:
            if h:
                raise
            raise Unencodable(f'numpy function {func.__name__} on symbolic data: {e}') from e
    return h(*args, **kwargs)
