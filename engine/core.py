"""Path engine: symbolic inputs, decisions, atoms (reciprocal, trigonometric, ...), solver queries."""
import math
import random
import time
from fractions import Fraction

from . import sym
from .sym import z3, SymNum, SymBool, Unencodable, PathDead, PathLimit, rv, real, ratval

TWO_PI = Fraction(2 * math.pi)


def keyexpr(e):
    return z3.simplify(e, som=True, sort_sums=True, mul_to_power=False)


def linear_terms(e):
    """e (canonical, real) as ({id: (coef, term)}, const)"""
    terms, const = {}, Fraction(0)

    def add(e, k):
        nonlocal const
        v = ratval(e)
        if v is not None:
            const += k * v
            return
        if z3.is_add(e):
            for c in e.children():
                add(c, k)
            return
        if z3.is_sub(e):
            ch = e.children()
            add(ch[0], k)
            for c in ch[1:]:
                add(c, -k)
            return
        if e.decl().kind() == z3.Z3_OP_UMINUS:
            add(e.arg(0), -k)
            return
        if z3.is_mul(e):
            ch = e.children()
            num = Fraction(1)
            rest = []
            for c in ch:
                v = ratval(c)
                if v is not None:
                    num *= v
                else:
                    rest.append(c)
            if num != 1:
                t = rest[0] if len(rest) == 1 else z3.Product(rest) if rest else None
                if t is None:
                    const += k * num
                elif len(rest) == 1:
                    add(rest[0], k * num)
                else:
                    put(keyexpr(t), k * num)
                return
        put(e, k)

    def put(t, k):
        i = t.get_id()
        if i in terms:
            terms[i] = (terms[i][0] + k, t)
        else:
            terms[i] = (k, t)

    add(e, Fraction(1))
    return {i: kt for i, kt in terms.items() if kt[0] != 0}, const


def _approx(v):
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    f = ratval(v)
    return None if f is None else float(f)


def _floorval(v):
    f = ratval(v)
    return math.floor(f if f is not None else v.approx(20).as_fraction())


class Engine:

    def __init__(self, prefix=(), opts=None):
        self.opts = opts or {}
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []  # alternative prefixes discovered on this path
        self.vars = {}  # name -> dict(e, lo, hi, kind)
        self.pc = []  # constraint exprs
        self.npc_dec = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts.get('branch_ms', 1500))
        self.defs = {}  # atom const name -> (kind, args)
        self._recip = {}
        self._trig = {}
        self._half = {}
        self._range = {}
        self._pinpos = 0
        self._cuts = {}
        self._sqrt = {}
        self._uf = {}
        self._keep = []
        self.ufdecl = {}
        self.notes = set()
        self.inexact = False
        self.n = 0
        self.stats = dict(branch_queries=0, solver_s=0.0, branches=0)
        self.candidates = []
        self.unknowns = []
        self.ostats = dict(total=0, queries=0, solver_s=0.0)
        self._vmemo = {}
        self._imemo = {}
        self._pmemo = {}
        self.quats = []  # names of the components of unit quaternions
        self.units = {}  # canonical expressions assumed equal to one

    def is_unit(self, e):
        return keyexpr(e).get_id() in self.units

    def add_unit(self, e):
        k = keyexpr(e)
        self.units[k.get_id()] = k
        self.assume_e(k == 1)

    # ------------------------------------------------------------ inputs and constraints
    def note(self, s):
        self.notes.add(s)

    def assume_e(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def fresh(self, base, defn=None, integer=False):
        self.n += 1
        name = f'@{base}{self.n}'
        v = z3.Int(name) if integer else z3.Real(name)
        self.defs[name] = defn
        return v

    def real_input(self, name, lo, hi):
        assert name not in self.vars, name
        v = z3.Real(name)
        self.vars[name] = dict(e=v, lo=lo, hi=hi, kind='real')
        self._cuts[v.get_id()] = [(sym.to_frac(b), b) for b in (lo, hi) if b is not None]
        if lo is not None:
            self.assume_e(v >= rv(lo))
        if hi is not None:
            self.assume_e(v <= rv(hi))
        return sym.WeakNum(v)

    def int_input(self, name, lo, hi):
        v = z3.Int(name)
        self.vars[name] = dict(e=v, lo=lo, hi=hi, kind='int')
        self.assume_e(v >= lo)
        self.assume_e(v <= hi)
        return SymNum(v)

    def bool_input(self, name):
        v = z3.Bool(name)
        self.vars[name] = dict(e=v, lo=0, hi=1, kind='bool')
        return SymBool(v)

    # ------------------------------------------------------------ decisions
    def _check(self, *es, ms=None):
        t = time.time()
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(*es)
        if ms:
            self.solver.set('timeout', self.opts.get('branch_ms', 1500))
        self.stats['branch_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats['branches'] += 1
        i = len(self.decisions)
        if i > self.opts.get('max_decisions', 400):
            raise PathLimit('too many decisions on one path')
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == 'b', 'non-deterministic re-execution'
            self.decisions.append(('b', val))
            self.assume_e(e if val else z3.Not(e))
            return val
        ne = z3.Not(e)
        t = self._check(e)
        if t == z3.unsat:
            # forced: no decision recorded, but re-execution must see the same number of decisions
            self.decisions.append(('b', False))
            self.assume_e(ne)
            return False
        f = self._check(ne)
        if f == z3.unsat:
            self.decisions.append(('b', True))
            self.assume_e(e)
            return True
        self.pending.append(self.decisions + [('b', False)])
        self.decisions.append(('b', True))
        self.assume_e(e)
        return True

    def concretize_floor(self, e):
        """floor of a real, one path per value, without integer arithmetic"""
        e = z3.simplify(e)
        v = ratval(e)
        if v is not None:
            return math.floor(v)
        return self.concretize(e, value=lambda m: _floorval(m.eval(e, model_completion=True)), eq=lambda k: z3.And(e >= k, e < k + 1))

    def concretize(self, e, value=None, eq=None):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        value = value or (lambda m: m.eval(e, model_completion=True).as_long())
        eq = eq or (lambda k: e == k)
        while True:
            i = len(self.decisions)
            if i > self.opts.get('max_decisions', 400):
                raise PathLimit('too many decisions on one path')
            if i < len(self.prefix):
                kind, (val, taken) = self.prefix[i]
                assert kind == 'v', 'non-deterministic re-execution'
            else:
                r = self._check(ms=5000)
                if r == z3.unsat:
                    raise PathDead('infeasible')
                if r != z3.sat:
                    raise Unencodable('cannot concretise an integer')
                val = value(self.solver.model())
                if self._check(z3.Not(eq(val))) != z3.unsat:
                    self.pending.append(self.decisions + [('v', (val, False))])
                taken = True
            self.decisions.append(('v', (val, taken)))
            if taken:
                self.assume_e(eq(val))
                return val
            self.assume_e(z3.Not(eq(val)))

    def pins(self):
        """inputs which the path confines to one value (up to rounding), with that value"""
        while self._pinpos < len(self.pc):
            e = z3.simplify(self.pc[self._pinpos])
            self._pinpos += 1
            neg = z3.is_not(e)
            a = e.arg(0) if neg else e
            k = a.decl().kind()
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or k == z3.Z3_OP_EQ and neg:
                continue
            x, y = a.children()
            if ratval(x) is not None:
                x, y = y, x
                k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
            c = ratval(y)
            if c is None or not z3.is_const(x) or str(x) not in self.vars or self.vars[str(x)]['kind'] != 'real':
                continue
            b = self._range.setdefault(str(x), [None, None])
            upper = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg
            if k == z3.Z3_OP_EQ or not upper:
                b[0] = c if b[0] is None else max(b[0], c)
            if k == z3.Z3_OP_EQ or upper:
                b[1] = c if b[1] is None else min(b[1], c)
        return [(self.vars[n]['e'], rv(lo)) for n, (lo, hi) in self._range.items()
                if lo is not None and hi is not None and hi - lo <= Fraction(1, 10**14) * abs(lo)]

    def cut(self, e, c):
        """constant c compared with e: constants within a few roundings of one already compared with e are that constant"""
        i = e.get_id()
        v = sym.to_frac(c)
        if i not in self._cuts:
            self._cuts[i] = []
            self._keep.append(e)
        for v2, o in self._cuts[i]:
            if v2 == v:
                return o
            if abs(v - v2) <= Fraction(1, 10**14) * abs(v):
                self.inexact = True
                return o
        self._cuts[i].append((v, c))
        return c

    def assume(self, c):
        if isinstance(c, SymBool):
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            self.assume_e(e)
        elif not c:
            raise PathDead('assumption is false')

    # ------------------------------------------------------------ atoms
    def recip(self, e):
        """real r with e*r == 1 when e != 0 (arbitrary when e == 0)"""
        k = keyexpr(e)
        v = ratval(k)
        if v is not None:
            if v == 0:
                return self.fresh('poison', ('poison', []))
            return rv(1 / v)
        if k.get_id() in self.units:
            return rv(1)
        if k.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(k.arg(0), self.recip(k.arg(1)), self.recip(k.arg(2)))
        terms, const = linear_terms(k)
        if const == 0 and len(terms) == 1:
            (coef, t), = terms.values()
            if coef != 1:
                return rv(1 / coef) * self.recip(t)
            if z3.is_mul(t):
                return z3.Product([self.recip(c) for c in t.children()])
            if t.decl().kind() == z3.Z3_OP_POWER and ratval(t.arg(1)) is not None and ratval(t.arg(1)).denominator == 1:
                r = self.recip(t.arg(0))
                return z3.Product([r] * int(ratval(t.arg(1))))
            d = self.defs.get(str(t)) if z3.is_const(t) else None
            if d and d[0] == 'recip':
                return d[1][0]
            k = t
        elif self._trig and len(terms) > 1:
            m = self._as_monomial(k)
            if m is not None:
                return self.recip(m)
        i = k.get_id()
        if i not in self._recip:
            # same denominator up to float rounding of its constants?
            for k2, r2 in list(self._recip.values()):
                if self._tiny(k - k2):
                    self._recip[i] = (k, r2)
                    self.inexact = True
                    return r2
            r = self.fresh('rcp', ('recip', [k]))
            self.assume_e(z3.Implies(k != 0, k * r == 1))
            self.assume_e(z3.Implies(k > 0, r > 0))
            self.assume_e(z3.Implies(k < 0, r < 0))
            self._recip[i] = (k, r)
            self._keep.append(k)
        return self._recip[i][1]

    def _tiny(self, d, tol=1e-11):
        """|d| <= tol over the input boxes by monomial bounds"""
        b = self.bound_abs(keyexpr(d))
        return b is not None and b <= tol

    def trig(self, e):
        k = keyexpr(e)
        if ratval(k) is not None:
            x = float(ratval(k))
            return math.sin(x), math.cos(x)
        if k.decl().kind() == z3.Z3_OP_ITE:
            s1, c1 = self.trig(k.arg(1))
            s2, c2 = self.trig(k.arg(2))
            c = SymBool(k.arg(0))
            return sym.ite(c, s1, s2), sym.ite(c, c1, c2)
        terms, const = linear_terms(k)
        parts = []
        for coef, t in terms.values():
            if t.decl().kind() == z3.Z3_OP_TO_REAL:
                q = coef / TWO_PI
                if abs(q - round(q)) < Fraction(1, 10**12):
                    continue  # whole turns
                if abs(2 * q - round(2 * q)) < Fraction(1, 10**12):  # half turns: cosine +-1
                    i = t.get_id()
                    if i not in self._half:
                        c = self.fresh('cos', ('cos', [rv(coef) * t]))
                        self.assume_e(z3.Or(c == 1, c == -1))
                        self._half[i] = c
                        self._keep.append(t)
                    parts.append((0.0, SymNum(self._half[i])))
                    continue
            parts.append(self._trig_term(coef, t))
        if const != 0:
            x = float(const)
            # exact values at multiples of pi/2 up to rounding stay numeric
            parts.append((math.sin(x), math.cos(x)))
        if not parts:
            return 0.0, 1.0
        s, c = parts[0]
        for s2, c2 in parts[1:]:
            s, c = s * c2 + c * s2, c * c2 - s * s2
        return s, c

    def _trig_term(self, coef, t):
        neg = coef < 0
        a = abs(coef)
        d = self.defs.get(str(t)) if z3.is_const(t) else None
        if d and d[0] == 'asin' and a == 1:
            x = SymNum(d[1][0])
            c = SymNum(self.sqrt((1 - x * x).e))
            return (-x if neg else x), c
        if d and d[0] == 'acos' and a == 1:
            x = SymNum(d[1][0])
            s = SymNum(self.sqrt((1 - x * x).e))
            return (-s if neg else s), x
        if d and d[0] == 'atan2' and a == 1:
            y, x = (SymNum(v) for v in d[1])
            h = SymNum(self.sqrt((x * x + y * y).e))
            return (-(y / h) if neg else y / h), x / h
        key = (t.get_id(), a)
        if key not in self._trig:
            # same argument up to rounding of the coefficient (e.g. two different degree constants)?
            for (tid, a2), v in list(self._trig.items()):
                if tid == t.get_id() and a != a2 and abs(a - a2) <= Fraction(1, 10**13) * max(a, a2):
                    self._trig[key] = v
                    self.inexact = True
                    break
            else:
                base = rv(a) * t if a != 1 else t
                s = self.fresh('sin', ('sin', [base]))
                c = self.fresh('cos', ('cos', [base]))
                self.assume_e(s * s + c * c == 1)
                self.assume_e(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
                for (tid, a2), (s2, c2) in list(self._trig.items()):
                    if tid != t.get_id():
                        if self.opts.get('trig_congruence') and len(self._trig) < 10:
                            # equal arguments have equal sine and cosine
                            base2 = self.defs[str(s2)][1][0]
                            self.assume_e(z3.Implies(base == base2, z3.And(s == s2, c == c2)))
                            iv = self.interval(keyexpr(base - base2))
                            if iv and iv[0] > -6.28 and iv[1] < 6.28:  # less than a turn apart: and conversely
                                self.assume_e(z3.Implies(z3.And(s == s2, c == c2), base == base2))
                        continue
                    if a == 2 * a2:
                        self.assume_e(z3.And(s == 2 * s2 * c2, c == 1 - 2 * s2 * s2))
                    elif a2 == 2 * a:
                        self.assume_e(z3.And(s2 == 2 * s * c, c2 == 1 - 2 * s * s))
                self._trig[key] = (s, c)
                self._keep.append(t)
        s, c = self._trig[key]
        return SymNum(-s if neg else s), SymNum(c)

    def trig_sign_lemma(self, e, lo, hi):
        """states the sign facts of sin/cos for an argument known to lie in [lo, hi] within (-pi/2, pi/2)"""
        s, c = self.trig(e)
        if isinstance(c, SymNum) and lo > -math.pi / 2 and hi < math.pi / 2:
            m = min(math.cos(lo), math.cos(hi)) - 1e-9
            self.assume_e(c.e >= rv(m))
            self.assume_e(z3.And(s.e >= rv(math.sin(lo) - 1e-9), s.e <= rv(math.sin(hi) + 1e-9)))
            self.assume_e(z3.And(z3.Implies(e > 0, s.e > 0), z3.Implies(e < 0, s.e < 0), z3.Implies(e == 0, s.e == 0)))

    def sqrt(self, e):
        k = keyexpr(e)
        v = ratval(k)
        if v is not None:
            if v < 0:
                return self.fresh('poison', ('poison', []))
            return rv(math.sqrt(v)) if not _perfect(v) else rv(_perfect(v))
        i = k.get_id()
        if i in self.units:
            return rv(1)
        if i not in self._sqrt:
            for k2, s2 in list(self._sqrt.values()):
                if self._tiny(k - k2, 1e-13):
                    self._sqrt[i] = (k, s2)
                    self.inexact = True
                    return s2
            s = self._root(k)
            if s is None:
                s = self.fresh('sqrt', ('sqrt', [k]))
                self.assume_e(z3.Implies(k >= 0, z3.And(s >= 0, s * s == k)))
            self._sqrt[i] = (k, s)
            self._keep.append(k)
        return self._sqrt[i][1]

    def _root(self, k):
        """|r| when k is r^2 for a product r, by sin^2 + cos^2 = 1"""
        m = self._as_monomial(k)
        if m is None:
            return None
        num, powers = Fraction(1), {}
        for t in m.children() if z3.is_mul(m) else [m]:
            v = ratval(t)
            if v is not None:
                num *= v
            else:
                powers.setdefault(t.get_id(), [t, 0])[1] += 1
        if num <= 0 or any(n % 2 for _, n in powers.values()):
            return None
        a, b = math.isqrt(num.numerator), math.isqrt(num.denominator)
        if a * a != num.numerator or b * b != num.denominator:
            return None
        r = rv(Fraction(a, b))
        for t, n in powers.values():
            for _ in range(n // 2):
                r = r * t
        iv = self.interval(r)
        return r if iv and iv[0] >= 0 else z3.If(r >= 0, r, -r)

    def powf(self, e, q):
        k = keyexpr(e)
        key = ('pow', k.get_id(), q)
        if key not in self._uf:
            for kk, (k2, r2) in list(self._uf.items()):
                if kk[0] == 'pow' and kk[2] == q and self._tiny(k - k2, 1e-13):
                    self._uf[key] = (k, r2)
                    return r2
            r = self.fresh('pow', ('pow', [k, q]))
            self.assume_e(z3.Implies(k > 0, r > 0))
            self._uf[key] = (k, r)
            self._keep.append(k)
        return self._uf[key][1]

    def ufun(self, name, args):
        """transcendental function as an uninterpreted function with range facts"""
        ks = [keyexpr(a) for a in args]
        key = (name, ) + tuple(k.get_id() for k in ks)
        if key not in self._uf:
            r = self.fresh(name, (name, ks))
            # congruence with earlier applications
            for kk, v in list(self._uf.items()):
                if kk[0] == name and name != 'pow':
                    self.assume_e(z3.Implies(z3.And(*[a == b for a, b in zip(ks, v[0])]), r == v[1]))
            hp = math.pi / 2 + 1e-9
            if name in ('asin', 'atan'):
                self.assume_e(z3.And(r >= rv(-hp), r <= rv(hp)))
            elif name == 'acos':
                self.assume_e(z3.And(r >= 0, r <= rv(2 * hp)))
            elif name == 'atan2':
                self.assume_e(z3.And(r >= rv(-2 * hp), r <= rv(2 * hp)))
            elif name == 'exp':
                self.assume_e(r > 0)
            elif name == 'tanh':
                self.assume_e(z3.And(r > -1, r < 1))
            self._uf[key] = (ks, r)
            self._keep.extend(ks)
        return self._uf[key][1]

    def uf(self, name, args):
        """application of an arbitrary (stub) function"""
        f = self.ufdecl.get((name, len(args)))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            self.ufdecl[(name, len(args))] = f
        ks = [real(sym.lift(a)) for a in args]
        # arguments that differ only by float rounding of constants are identified (bounded by 1e-11)
        for (n2, ks2, r2) in self._uf.setdefault(('stub', ), []):
            if n2 == name and len(ks2) == len(ks):
                ds = [keyexpr(a - b) for a, b in zip(ks, ks2)]
                if all(ratval(d) == 0 for d in ds):
                    return SymNum(r2)
                if all(ratval(d) == 0 or self._tiny(d) for d in ds):
                    self.inexact = True
                    return SymNum(r2)
        r = f(*ks)
        self._uf[('stub', )].append((name, ks, r))
        return SymNum(r)

    # ------------------------------------------------------------ obligations
    def values_of(self, model):
        out = {}
        for name, d in self.vars.items():
            v = model.eval(d['e'], model_completion=True)
            if d['kind'] == 'bool':
                out[name] = bool(z3.is_true(v))
            elif d['kind'] == 'int':
                out[name] = v.as_long()
            elif z3.is_algebraic_value(v):
                out[name] = float(v.approx(20).as_fraction())
            else:
                f = ratval(v)
                out[name] = float(f) if f is not None else 0.0
        return out

    def cone(self, e):
        """path constraints that share variables (transitively) with e"""
        vs = self._vars_of(e)
        todo = [(c, self._vars_of(c)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, cv in todo:
                if cv & vs:
                    out.append(c)
                    if not cv <= vs:
                        vs = vs | cv
                        changed = True
                else:
                    rest.append((c, cv))
            todo = rest
        return out

    def _vars_of(self, e):
        i = e.get_id()
        c = self._vmemo.get(i)
        if c is not None:
            return c[1]
        seen, out, st = set(), set(), [e]
        while st:
            x = st.pop()
            j = x.get_id()
            if j in seen:
                continue
            seen.add(j)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            else:
                if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add('()' + x.decl().name())
                st.extend(x.children())
        r = frozenset(out)
        self._vmemo[i] = (e, r)
        return r

    def query(self, e, ms, seed=0):
        """is (path condition and e) satisfiable?  (result, model)"""
        e = z3.simplify(e)
        if z3.is_false(e):
            self.ostats['queries'] += 1
            return z3.unsat, None
        t = time.time()
        cs = self.cone(e)
        r, m = z3.unknown, None
        for k, cap in enumerate((min(ms, 1500), ms)):
            nl = k > 0 and self._pure(cs + [e])
            s = z3.Tactic('qfnra-nlsat').solver() if nl else z3.Solver()
            s.set('timeout', int(cap))
            if k and seed and not nl:
                s.set('random_seed', seed)
            s.add(*cs)
            s.add(e)
            self.ostats['queries'] += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        if r == z3.sat:
            m = s.model()
        self.ostats['solver_s'] += time.time() - t
        return r, m

    def _pure(self, es):
        for e in es:
            k = e.get_id()
            if k not in self._pmemo:
                ok, st, seen = True, [e], set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    kd = x.decl().kind()
                    if kd in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL) or z3.is_int(x) or (kd == z3.Z3_OP_UNINTERPRETED and x.num_args()):
                        ok = False
                        break
                    st.extend(x.children())
                self._pmemo[k] = (e, ok)
            if not self._pmemo[k][1]:
                return False
        return True

    def _count(self, kind):
        self.ostats['total'] += 1
        self.ostats[kind] = self.ostats.get(kind, 0) + 1

    def _candidate(self, msg, model, kind='sat'):
        vals = self.values_of(model) if model is not None else {}
        full = dict(vals)
        self.candidates.append(dict(msg=msg, values=full, kind=kind))
        if model is not None:
            alt = self._angles_from_atoms(model, full)
            if alt:
                self.candidates.append(dict(msg=msg, values=alt, kind=kind))

    def _angles_from_atoms(self, model, vals):
        """the model's inputs with every angle moved to where its sine and cosine are those of the model"""
        out, hit = dict(vals), False
        for (_, a), (s, c) in self._trig.items():
            base = self.defs[str(s)][1][0]
            terms, const = linear_terms(base)
            if const != 0 or len(terms) != 1:
                continue
            k, t = next(iter(terms.values()))
            d = self.vars.get(str(t)) if z3.is_const(t) else None
            if not d or d['kind'] != 'real':
                continue
            sv, cv = (_approx(model.eval(x, model_completion=True)) for x in (s, c))
            if sv is None or cv is None:
                continue
            ang = math.atan2(sv, cv)
            x = vals[str(t)]
            ang += 2 * math.pi * round((float(k) * x - ang) / (2 * math.pi))
            step = 2 * math.pi / abs(float(k))
            y = ang / float(k)
            while d['hi'] is not None and y > d['hi']:
                y -= step
            while d['lo'] is not None and y < d['lo']:
                y += step
            if d['hi'] is None or y <= d['hi']:
                out[str(t)], hit = y, True
        return out if hit else None

    def path_model(self):
        r = self._check(ms=4000)
        if r == z3.sat:
            return self.solver.model()
        s = z3.Solver()
        s.set('timeout', 8000)
        s.add(*self.pc)
        if s.check() == z3.sat:
            return s.model()
        return None

    def obligation(self, c, msg):
        if isinstance(c, SymNum):
            c = SymBool(c.e != 0)
        if not isinstance(c, SymBool):
            if c:
                self._count('concrete')
            else:
                self._count('violated')
                self._candidate(msg, self.path_model())
            return
        ms = self.opts.get('prove_ms', 12000)
        r, m = self.query(z3.Not(c.e), ms)
        if r == z3.unknown:
            r, m = self.query(z3.Not(c.e), ms * 2, seed=7)
        if r == z3.unsat:
            self._count('proved')
            # a proved fact may be used by later obligations of this path
        elif r == z3.sat:
            self._count('violated')
            self._candidate(msg, m)
        else:
            self._count('unknown')
            self.unknowns.append(msg)

    def close_obligation(self, msg, got, terms, rel, atol):
        g = sym.lift(got) if sym.isym(got) or math.isfinite(got) else None
        for t in terms:
            if not sym.isym(t) and not math.isfinite(t):
                self._count('skipped')
                self.note(f'non-finite expectation: {msg}')
                return
        if g is None:
            self._count('violated')
            self._candidate(f'{msg}: got {got}', self.path_model())
            return
        g = real(g)
        ts = [real(sym.lift(t)) for t in terms]
        d = keyexpr(g - z3.Sum(ts) if len(ts) != 1 else g - ts[0])
        v = ratval(d)
        if v is not None and v == 0:
            self._count('normalised')
            self.ostats['queries'] += 1
            return
        if self._tiny(d, atol):
            self._count('interval')
            return
        if v is None:
            pins = self.pins()
            if pins:
                d = keyexpr(z3.substitute(d, *pins))
                v = ratval(d)
                if self._tiny(d, atol):
                    self._count('interval')
                    return
        if v is None and (self._trig or self.quats or self._recip or self._sqrt):
            d2 = self.reduce(d)
            if d2 is not None:
                d2 = keyexpr(d2)
                v = ratval(d2)
                if v is not None and v == 0:
                    self._count('normalised')
                    self.ostats['queries'] += 1
                    return
                if self._tiny(d2, atol):
                    self._count('interval')
                    return
        if v is not None:
            # constant difference: compare with the tolerance bound of the terms
            scale = 0.0
            for t in ts:
                b = self.low_abs(keyexpr(t))
                scale += b or 0.0
            if abs(v) <= atol + rel * scale:
                self._count('interval')
                return
        ms = self.opts.get('prove_ms', 12000)
        r, m = self.query(d != 0, min(ms, 3000))
        if r == z3.unsat:
            self._count('proved')
            return
        A = z3.Sum([z3.If(t >= 0, t, -t) for t in ts]) if ts else z3.RealVal(0)
        tol = rv(atol) + rv(rel) * A
        viol = z3.Or(d > tol, -d > tol)
        # a clear violation first: easier to reproduce on floats
        big = rv(1e-3) + rv(1e-3) * A
        r2, m2 = self.query(z3.Or(d > big, -d > big), min(ms, 4000))
        if r2 == z3.sat:
            self._count('violated')
            self._candidate(msg, m2)
            return
        r, m = self.query(viol, ms)
        if r == z3.unknown:
            r, m = self.query(viol, ms * 2, seed=11)
        if r == z3.unsat:
            self._count('proved')
        elif r == z3.sat:
            self._count('violated')
            self._candidate(msg, m)
        else:
            self._count('unknown')
            self.unknowns.append(msg)

    # ------------------------------------------------------------ reduction by the identities of the atoms
    def polynomial(self, e, cap=60000):
        """canonical expression as {((atom id, power), ...): coefficient}; None when too big"""
        atoms = {}
        memo = {}

        def mono(a, b):
            d = dict(a)
            for i, p in b:
                d[i] = d.get(i, 0) + p
            return tuple(sorted(d.items()))

        def mul(a, b):
            if len(a) * len(b) > cap:
                raise OverflowError
            out = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = mono(m1, m2)
                    c = out.get(m, 0) + c1 * c2
                    if c:
                        out[m] = c
                    else:
                        out.pop(m, None)
            return out

        def add(ps):
            out = {}
            for p in ps:
                for m, c in p.items():
                    c = out.get(m, 0) + c
                    if c:
                        out[m] = c
                    else:
                        out.pop(m, None)
            if len(out) > cap:
                raise OverflowError
            return out

        def go(e):
            i = e.get_id()
            if i in memo:
                return memo[i][1]
            v = ratval(e)
            k = e.decl().kind()
            if v is not None:
                r = {(): v} if v else {}
            elif k == z3.Z3_OP_ADD:
                r = add([go(c) for c in e.children()])
            elif k == z3.Z3_OP_SUB:
                ch = e.children()
                r = add([go(ch[0])] + [{m: -c for m, c in go(x).items()} for x in ch[1:]])
            elif k == z3.Z3_OP_UMINUS:
                r = {m: -c for m, c in go(e.arg(0)).items()}
            elif k == z3.Z3_OP_MUL:
                ch = e.children()
                r = go(ch[0])
                for c in ch[1:]:
                    r = mul(r, go(c))
            elif k == z3.Z3_OP_POWER and ratval(e.arg(1)) is not None and ratval(e.arg(1)).denominator == 1 and 0 <= ratval(e.arg(1)) < 20:
                r = {(): Fraction(1)}
                b = go(e.arg(0))
                for _ in range(int(ratval(e.arg(1)))):
                    r = mul(r, b)
            else:
                atoms[i] = e
                r = {((i, 1), ): Fraction(1)}
            memo[i] = (e, r)  # keeping e alive keeps its id its own
            return r

        return go(e), atoms, go, mul, add

    def _as_monomial(self, k):
        """the same expression as a single product by sin^2 + cos^2 = 1, if that is possible"""
        for flip in (False, True):
            r = self.reduce(k, flip=flip)
            if r is not None and not z3.is_add(r) and (z3.is_mul(r) or ratval(r) is not None):
                return r
        return None

    def reduce(self, d, flip=False):
        """d rewritten with cos^2 = 1 - sin^2, w^2 = 1 - x^2 - y^2 - z^2, sqrt^2 = argument, r * (1/r) = 1, double angles"""
        try:
            p, atoms, go, mul, add = self.polynomial(d)
        except OverflowError:
            return None
        todo, rules, inv = list(atoms.values()), {}, {}
        seen = set()
        quat = {}
        for q in self.quats:
            if all(n in self.vars for n in q):
                x, y, z, w = (self.vars[n]['e'] for n in q)
                quat[str(w)] = 1 - x * x - y * y - z * z
        halves = {}
        for (tid, a), (s, c) in self._trig.items():
            if (tid, a / 2) in self._trig:
                s2, c2 = self._trig[(tid, a / 2)]
                halves[str(s)] = 2 * s2 * c2
                halves[str(c)] = 1 - 2 * s2 * s2
        inverted = {str(df[1][0]) for df in self.defs.values() if df[0] == 'recip' and z3.is_const(df[1][0])}
        cosof = {}
        for s, c in self._trig.values():
            if flip or (str(c) in inverted and str(s) not in inverted):  # 1/c in use: c * (1/c) must stay visible
                cosof[str(s)] = c
            else:
                cosof[str(c)] = s
        signs = {str(c) for c in self._half.values()}
        try:
            while todo:
                t = todo.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if not z3.is_const(t):
                    continue
                n, rule = str(t), None
                df = self.defs.get(n)
                if n in halves:
                    rule = (1, halves[n])
                elif n in cosof:
                    rule = (2, 1 - cosof[n] * cosof[n])
                elif n in signs:
                    rule = (2, rv(1))
                elif n in quat:
                    rule = (2, quat[n])
                elif df and df[0] == 'sqrt' and self.interval(df[1][0]) and self.interval(df[1][0])[0] >= 0:
                    rule = (2, df[1][0])
                elif df and df[0] == 'recip' and z3.is_const(df[1][0]) and self.low_abs(df[1][0]):
                    inv[t.get_id()] = df[1][0].get_id()
                if rule:
                    before = set(atoms)
                    rules[t.get_id()] = (rule[0], go(keyexpr(rule[1])))
                    todo += [atoms[i] for i in set(atoms) - before]
            done = {}
            work = p
            for _ in range(40):
                nxt = []
                for m, c in work.items():
                    dm = dict(m)
                    for r, k in inv.items():
                        if r in dm and k in dm:
                            q = min(dm[r], dm[k])
                            dm[r] -= q
                            dm[k] -= q
                    hit = next((i for i in dm if i in rules and dm[i] >= rules[i][0]), None)
                    if hit is None:
                        nxt.append({tuple(sorted((i, q) for i, q in dm.items() if q)): c})
                        continue
                    pw, rhs = rules[hit]
                    dm[hit] -= pw
                    nxt.append(mul({tuple(sorted((i, q) for i, q in dm.items() if q)): c}, rhs))
                new = add(nxt)
                if new == work:
                    break
                work = new
        except OverflowError:
            return None
        ts = []
        for m, c in work.items():
            f = [rv(c)]
            for i, q in m:
                f += [atoms[i]] * q
            ts.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else rv(0)

    # ------------------------------------------------------------ bounds
    def var_bound(self, v):
        name = str(v)
        if name in self.vars:
            d = self.vars[name]
            if d['lo'] is None or d['hi'] is None:
                return None
            return max(abs(to_f(d['lo'])), abs(to_f(d['hi'])))
        d = self.defs.get(name)
        if d and d[0] in ('sin', 'cos', 'tanh'):
            return 1.0
        if d and d[0] in ('asin', 'atan', 'acos', 'atan2'):
            return 3.2
        if d and d[0] == 'recip':
            b = self.low_abs(d[1][0])
            return 1 / b if b else None
        if d and d[0] == 'sqrt':
            b = self.bound_abs(d[1][0])
            return math.sqrt(b) if b is not None else None
        if d and d[0] == 'pow':
            iv = self.interval(d[1][0])
            if iv and iv[0] > 0:
                q = float(d[1][1])
                return max(iv[0]**q, iv[1]**q)
        return None

    def interval(self, e):
        """coarse interval of an expression from the input boxes (None when unknown)"""
        i = e.get_id()
        c = self._imemo.get(i)
        if c is None:
            c = self._imemo[i] = (e, self._interval(e))
        return c[1]

    def _interval(self, e):
        v = ratval(e)
        if v is not None:
            return (float(v), float(v))
        k = e.decl().kind()
        if z3.is_const(e) and k == z3.Z3_OP_UNINTERPRETED:
            name = str(e)
            if name in self.vars:
                d = self.vars[name]
                if d['lo'] is None or d['hi'] is None:
                    return None
                return (to_f(d['lo']), to_f(d['hi']))
            d = self.defs.get(name)
            if d and d[0] in ('sin', 'cos'):
                iv = self.interval(keyexpr(d[1][0]))
                if iv is None or max(abs(iv[0]), abs(iv[1])) > 100:
                    return (-1.0, 1.0)
                lo, hi = (iv[0] + math.pi / 2, iv[1] + math.pi / 2) if d[0] == 'cos' else iv  # as a sine
                f = [math.sin(lo), math.sin(hi)]
                if math.floor((hi - math.pi / 2) / (2 * math.pi) + 1e-9) > math.floor((lo - math.pi / 2) / (2 * math.pi) - 1e-9):
                    f.append(1.0)
                if math.floor((hi + math.pi / 2) / (2 * math.pi) + 1e-9) > math.floor((lo + math.pi / 2) / (2 * math.pi) - 1e-9):
                    f.append(-1.0)
                return (max(min(f) - 1e-12, -1.0), min(max(f) + 1e-12, 1.0))
            if d and d[0] == 'tanh':
                return (-1.0, 1.0)
            if d and d[0] == 'recip':
                iv = self.interval(d[1][0])
                if iv and iv[0] > 0:
                    return (1 / iv[1], 1 / iv[0])
                if iv and iv[1] < 0:
                    return (1 / iv[1], 1 / iv[0])
                return None
            if d and d[0] == 'sqrt':
                iv = self.interval(d[1][0])
                if iv and iv[1] >= 0:
                    return (math.sqrt(max(iv[0], 0)), math.sqrt(iv[1]))
                return None
            if d and d[0] == 'pow':
                iv = self.interval(d[1][0])
                if iv and iv[0] > 0:
                    q = float(d[1][1])
                    return tuple(sorted((iv[0]**q, iv[1]**q)))
            b = self.var_bound(e)
            return (-b, b) if b is not None else None
        ch = [self.interval(c) for c in e.children()] if k not in (z3.Z3_OP_ITE, ) else [self.interval(c) for c in e.children()[1:]]
        if any(c is None for c in ch):
            return None
        if k == z3.Z3_OP_ADD:
            return (sum(c[0] for c in ch), sum(c[1] for c in ch))
        if k == z3.Z3_OP_SUB:
            return (ch[0][0] - sum(c[1] for c in ch[1:]), ch[0][1] - sum(c[0] for c in ch[1:]))
        if k == z3.Z3_OP_UMINUS:
            return (-ch[0][1], -ch[0][0])
        if k == z3.Z3_OP_MUL:
            lo, hi = ch[0]
            chs = e.children()
            i = 1
            while i < len(ch):
                c = ch[i]
                if chs[i].eq(chs[0]) and len(ch) == 2:
                    m = max(abs(lo), abs(hi))
                    return (0.0 if lo <= 0 <= hi else min(lo * lo, hi * hi), m * m)
                ps = (lo * c[0], lo * c[1], hi * c[0], hi * c[1])
                lo, hi = min(ps), max(ps)
                i += 1
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            return (min(c[0] for c in ch), max(c[1] for c in ch))
        if k == z3.Z3_OP_TO_REAL:
            return ch[0]
        if k == z3.Z3_OP_TO_INT:
            return (ch[0][0] - 1, ch[0][1])
        if k == z3.Z3_OP_POWER and ratval(e.arg(1)) is not None and ratval(e.arg(1)) >= 0:
            n = float(ratval(e.arg(1)))
            m = max(abs(ch[0][0]), abs(ch[0][1]))
            return (-m**n, m**n)
        return None

    def bound_abs(self, e):
        iv = self.interval(e)
        return max(abs(iv[0]), abs(iv[1])) if iv else None

    def low_abs(self, e):
        iv = self.interval(e)
        if not iv:
            return None
        if iv[0] > 0:
            return iv[0]
        if iv[1] < 0:
            return -iv[1]
        return None


def _perfect(v):
    n, d = v.numerator, v.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None


def to_f(x):
    return float(x)


# ---------------------------------------------------------------- numeric evaluation of encoded terms
class NumEval:
    """evaluates encoded terms at concrete input values, atoms by their definitions (used to validate the encoding)"""

    def __init__(self, eng, values, ufs=None):
        self.eng = eng
        self.values = values
        self.ufs = ufs or {}
        self.memo = {}

    def const(self, name):
        if name in self.values:
            return self.values[name]
        d = self.eng.defs.get(name)
        if d is None:
            return 0.0
        kind, args = d
        if kind == 'recip':
            x = self.ev(args[0])
            return 1 / x if x else float('nan')
        if kind == 'sin':
            return math.sin(self.ev(args[0]))
        if kind == 'cos':
            return math.cos(self.ev(args[0]))
        if kind == 'sqrt':
            x = self.ev(args[0])
            return math.sqrt(x) if x >= 0 else float('nan')
        if kind == 'pow':
            x = self.ev(args[0])
            return x**float(args[1]) if x > 0 else float('nan')
        if kind in ('asin', 'acos', 'atan', 'exp', 'log', 'tanh', 'atan2'):
            try:
                return getattr(math, kind)(*[self.ev(a) for a in args])
            except (ValueError, OverflowError):
                return float('nan')
        return float('nan')

    def ev(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self._ev(e)
        self.memo[i] = (e, r)
        return r

    def _ev(self, e):
        v = ratval(e) if z3.is_arith(e) else None
        if v is not None:
            return float(v) if not z3.is_int_value(e) else int(v)
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                return self.const(str(e))
            f = self.ufs.get(e.decl().name())
            if f is None:
                raise KeyError(e.decl().name())
            return f(*[self.ev(c) for c in e.children()])
        if k == z3.Z3_OP_ITE:
            return self.ev(e.arg(1)) if self.ev(e.arg(0)) else self.ev(e.arg(2))
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in e.children())
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in e.children())
        c = [self.ev(x) for x in e.children()]
        if k == z3.Z3_OP_ADD:
            return sum(c)
        if k == z3.Z3_OP_SUB:
            return c[0] - sum(c[1:])
        if k == z3.Z3_OP_UMINUS:
            return -c[0]
        if k == z3.Z3_OP_MUL:
            return math.prod(c)
        if k == z3.Z3_OP_DIV:
            return c[0] / c[1] if c[1] else float('nan')
        if k == z3.Z3_OP_IDIV:
            return c[0] // c[1] if c[1] else 0
        if k == z3.Z3_OP_MOD:
            return c[0] % c[1] if c[1] else 0
        if k == z3.Z3_OP_POWER:
            return c[0]**c[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(c[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(c[0]) if math.isfinite(c[0]) else 0
        if k == z3.Z3_OP_LE:
            return c[0] <= c[1]
        if k == z3.Z3_OP_GE:
            return c[0] >= c[1]
        if k == z3.Z3_OP_LT:
            return c[0] < c[1]
        if k == z3.Z3_OP_GT:
            return c[0] > c[1]
        if k == z3.Z3_OP_EQ:
            return c[0] == c[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(c)) == len(c)
        if k == z3.Z3_OP_NOT:
            return not c[0]
        if k == z3.Z3_OP_IMPLIES:
            return (not c[0]) or c[1]
        if k == z3.Z3_OP_XOR:
            return bool(c[0]) != bool(c[1])
        raise KeyError(f'eval {e.decl()}')
