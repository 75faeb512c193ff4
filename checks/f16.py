"""Shared by the F-16 checks: arbitrary functions in place of the lower levels, golden controller data."""
import sys
from contextlib import contextmanager

from checks.common import *

AB = 'external.aerobench.'
LOW = AB + 'lowlevel.'
PKG = 'safe_autonomy_dynamics'

K = [
    [-156.8801506723475, -31.037008068526642, -38.72983346216317, 0, 0, 0, 0, 0],
    [0, 0, 0, 37.84483, -25.40956, -6.82876, -332.88343, -17.15997],
    [0, 0, 0, -23.91233, 5.69968, -21.63431, 64.49490, -88.36203],
]
XEQ = [502.0, 0.0389, 0.0, 0.0, 0.0389, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1000.0, 9.0567]
UEQ = [0.1395, -0.7496, 0.0, 0.0]
ULO, UHI = [0, -25, -21.5, -30], [1, 25, 21.5, 30]
CTRL = [1, 7, 13, 2, 6, 8, 14, 15]


class Arbitrary:
    """A function of the package replaced by an arbitrary one: its result is chosen freely, its arguments are recorded."""

    def __init__(self, ctx, module, attr, values, shape=None):
        self.ctx, self.attr = ctx, attr
        self.orig = getattr(ctx.mod(module), attr)
        self.values, self.calls = values, []
        self.shape = shape or (lambda v: v[0])

    def __call__(self, *a, **k):
        import inspect
        ba = inspect.signature(self.orig).bind(*a, **k)
        ba.apply_defaults()
        rec = []
        for v in ba.arguments.values():
            rec.append([x for x in self.ctx.flat(v)] if hasattr(v, '__len__') and not isinstance(v, str) else v)
        self.calls.append(rec)
        return self.shape(list(self.values))

    def result(self, *args):
        """what the code must have used: the arbitrary result if the function was called (then with these arguments), else its real value"""
        ctx = self.ctx
        if not self.calls:
            return self.orig(*args)
        for rec in self.calls:
            for i, (got, want) in enumerate(zip(rec, args)):
                if isinstance(want, (str, bool)):
                    ctx.check(got == want, f'argument {i} of {self.attr}')
                elif hasattr(want, '__len__') and not isinstance(want, tuple):
                    ctx.closes(f'argument {i} of {self.attr}', got, [w if isinstance(w, tuple) else (w, ) for w in want])
                else:
                    ctx.close(f'argument {i} of {self.attr}', got, *(want if isinstance(want, tuple) else (want, )))
        return self.shape(list(self.values))


@contextmanager
def replaced(*subs):
    """every reference of the package's modules to the originals goes to the stand-ins"""
    done = []
    try:
        for s in subs:
            for n, m in list(sys.modules.items()):
                if n.startswith(PKG) and m is not None:
                    for k, v in list(vars(m).items()):
                        if v is s.orig:
                            setattr(m, k, s)
                            done.append((m, k, s.orig))
        yield
    finally:
        for m, k, v in done:
            setattr(m, k, v)


def clipped(ctx, terms, lo, hi):
    return ctx.Max(ctx.Min(total_(terms), hi), lo)


def total_(ts):
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def trim_delta(x):
    return [a - b for a, b in zip(x, XEQ)] + list(x[len(XEQ):])


def controls(ctx, x, ref):
    """controller inputs and saturated command, by the published law"""
    d = trim_delta(x)
    c = [d[i] for i in CTRL]
    u = [clipped(ctx, [ref[3], UEQ[0]], ULO[0], UHI[0])]
    for i in range(3):
        u.append(clipped(ctx, [-k * v for k, v in zip(K[i], c) if k] + [UEQ[i + 1]], ULO[i + 1], UHI[i + 1]))
    return c, u


def flight_state(ctx, n=16, name='x'):
    lo = [1, -6.3, -3.1, -20, -20, -100, -20, -20, -20, -1e6, -1e6, -2000, 0, -500, -500, -500]
    hi = [1e4, 6.3, 3.1, 20, 20, 100, 20, 20, 20, 1e6, 1e6, 1e5, 100, 500, 500, 500]
    return ctx.vec(name, n, lo[:n], hi[:n])


def llc(ctx):
    return ctx.mod(LOW + 'low_level_controller').LowLevelController()
