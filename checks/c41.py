"""C41: a step with an adaptive method is as accurate as the library's adaptive solver."""
from checks.common import *
from checks.c05 import compare

BOUNDS = ('any step size in [0.001, 1e5] (JAX variants: 100), any state and control in the operating box and requests up to 100 times the limits, with 0 to 3 '
          'trajectory samples, first and second step; the library solvers are replaced by arbitrary functions: what is decided is that they are asked to '
          'solve exactly the problem of the step at default or tighter tolerances without any early stop, and that their solution at the end is returned; '
          'the accuracy of the library solvers themselves is trusted')


def asked(ctx, kind, rec, s, u, h, end):
    ctx.close('integration starts at', rec['t0'], 0.0)
    ctx.close('integration ends at', rec['t1'], h)
    ctx.closes('integration starts from', rec['y0'], [(x, ) for x in s])
    o = rec['options']
    if rec['kind'] == 'solve_ivp':
        name = rec['method'] if isinstance(rec['method'], str) else getattr(rec['method'], '__name__', '')
        ctx.check(name in ('RK45', 'DOP853'), f'an explicit Runge-Kutta method of order five or more, not {name}')
        rtol, atol = 1e-3, 1e-6
        ev = rec['events']
        for f in ([] if ev is None else ev if isinstance(ev, (list, tuple)) else [ev]):
            ctx.check(not getattr(f, 'terminal', False), 'the integration may stop before the end')
    else:
        rtol = atol = 1.4e-8
        if 'mxstep' in o:
            ctx.check(o['mxstep'] >= 1e6, 'the integration may stop before the end')
    for k, b in (('rtol', rtol), ('atol', atol)):
        for x in ctx.flat(o.get(k, b)) if hasattr(o.get(k, b), '__len__') or hasattr(o.get(k, b), 'shape') else [o.get(k, b)]:
            ctx.check(x <= b, f'{k} looser than the default of the library')


def precise(ctx, tag, method, samples, second):
    kind = KINDS[tag]
    top = 100 if kind.jax else 1e5
    kw = dict(trajectory_samples=samples) if samples else {}
    e = kind.make(ctx, method=method, **kw)
    if second:
        p = OdeStub(ctx, kind.n, tag='first', end=kind.state(ctx, 'p'))
        ctx.set_ode(p)
        kind.put(ctx, e, kind.state(ctx, 'o'))
        ctx.quiet(lambda: e.step(ctx.real('g', 0.001, top)))
    s, h, u = kind.state(ctx), ctx.real('h', 0.001, top), kind.control(ctx, 'u', 100.0)
    end = kind.state(ctx, 'end')
    kind.put(ctx, e, s)
    stub = OdeStub(ctx, kind.n, end=end)
    ctx.set_ode(stub)
    ctx.quiet(lambda: e.step(h, ctx.arr(list(u)) if kind.m else None))
    ctx.check(len(stub.calls) == 1, 'one integration per step')
    rec = stub.calls[0]
    asked(ctx, kind, rec, s, u, h, end)
    c = kind.clip(ctx, u) if kind.m else u
    y = kind.state(ctx, 'y')
    compare(ctx, kind, 'integrated derivative', rec['deriv'](ctx.real('t', 0, 1e6), (ctx.jarr if kind.jax else ctx.arr)(list(y))), y, c)
    got = ctx.flat(e.state)
    for i in range(kind.n):
        bounded_close(ctx, kind, i, f'state[{i}] is the solution at the end', got[i], (end[i], ))


def cases(tier):
    out = []
    for k in kinds():
        for m in ('RK45', 'RK45_JAX') if k.jax else ('RK45', ):
            for second in (False, True):
                for n in (0, 3) if m == 'RK45' and k.tag not in ('sun', 'sun-jax') else (0, ):
                    quick = not k.jax and (n == 0 or not second) or n == 0 and not second
                    out.append(Case(f'{m}-{k}-{n}{"-second" if second else ""}', precise, dict(tag=k.tag, method=m, samples=n, second=second),
                                    tier='quick' if quick else 'thorough'))
    return out
