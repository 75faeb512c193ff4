"""C46: a step that raises changes nothing."""
import warnings

from checks.c05 import wide
from checks.c08 import final
from checks.common import *

BOUNDS = ('every entity class and integration method; arbitrary state up to twice outside the limits, a completed step and a clipped request before the failing one; failures: rejected actions '
          '(unknown name among valid ones, unsupported type), integration reported as failed, unknown method, user dynamics raising at the first, second or last '
          'evaluation of the derivative, warnings turned into errors; 1-3 failures in a row (12 for the one-axis integrator); afterwards a step from an arbitrary state compared with a fresh entity')


class Boom(Exception):
    pass


def snapshot(ctx, e):
    lim = [ctx.flat(x) if hasattr(x, 'shape') or ctx.symbolic and hasattr(x, '__len__') else [x] for x in (e.control_min, e.control_max)]
    return dict(state=ctx.flat(e.state), state_dot=ctx.flat(e.state_dot), control_default=ctx.flat(e.control_default), control_min=lim[0], control_max=lim[1],
                names=dict(e.control_map or {}), name=e.name)


def unchanged(ctx, e, was, what):
    now = snapshot(ctx, e)
    ctx.check(now.pop('names') == was['names'], f'actuator names after {what}')
    ctx.check(now.pop('name') == was['name'], f'name after {what}')
    for k, v in now.items():
        ctx.check(len(v) == len(was[k]), f'{k} after {what}: length')
        for i, (a, b) in enumerate(zip(v, was[k])):
            if not ctx.symbolic or not isinstance(b, float) or not math.isinf(b):
                if isinstance(b, float) and math.isinf(b):
                    ctx.check(a == b, f'{k}[{i}] after {what}')
                else:
                    ctx.close(f'{k}[{i}] after {what}', a, b)


def action(ctx, kind, u, form='ndarray'):
    if not kind.m:
        return None
    return dict(zip(kind.names, u)) if form == 'dict' else (list(u) if form == 'list' else ctx.arr(list(u)))


def failing(ctx, kind, method, how, times, form, scale=1.5):
    """one way of failing, then a good step"""
    if kind.jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    e = kind.make(ctx, method=method)
    kind.put(ctx, e, kind.state(ctx, 'p'))
    u0 = kind.control(ctx, 'u0', 1.5)
    if method != 'Euler':
        ctx.set_ode(OdeStub(ctx, kind.n, tag='before', end=kind.state(ctx, 'mid')))
    ctx.quiet(lambda: e.step(ctx.real('h0', 0.1, 2), action(ctx, kind, u0)))
    kind.put(ctx, e, wide(ctx, kind, 'start'))
    was = snapshot(ctx, e)
    for k in range(times):
        u = kind.control(ctx, f'u{k + 1}', scale)
        h = ctx.real(f'h{k + 1}', 0.1, 2)
        if method != 'Euler':
            ctx.set_ode(OdeStub(ctx, kind.n, tag=f'bad{k}', fail=0 if how == 'solver' else None, end=kind.state(ctx, f'bad{k}')))
        act = action(ctx, kind, u, form)
        if how == 'name':
            good = dict(zip(kind.names, u))
            act = {**good, 'no such actuator': 0.5}
            ctx.expect_raise(lambda: ctx.quiet(lambda: e.step(h, act)), 'KeyError', 'unknown actuator')
        elif how == 'type':
            ctx.expect_raise(lambda: ctx.quiet(lambda: e.step(h, tuple(u))), 'ValueError', 'unsupported action')
        elif how == 'solver':
            ctx.expect_raise(lambda: ctx.quiet(lambda: e.step(h, act)), ['RuntimeError', 'ValueError', 'ArithmeticError'], 'failed integration')
        else:
            w = [3 * x for x in kind.uhi]

            def strict():
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    e.step(h, action(ctx, kind, w, form))

            ctx.expect_raise(strict, 'UserWarning', 'clipping with warnings as errors')
        if form != 'ndarray' or how in ('name', 'type') or not kind.m:
            pass
        else:
            ctx.closes('request after the failure', ctx.flat(act), [(x, ) for x in u])
        unchanged(ctx, e, was, f'a failed step ({how})')
    with ctx.elsewhere():
        f = kind.make(ctx, method=method, name='fresh')
    final(ctx, kind, method, e, f, kind.state(ctx, 's'), kind.control(ctx, 'u', 0.9), ctx.real('h', 0.1, 2))


def method(ctx, tag):
    """an entity that can not be stepped at all keeps its state"""
    kind = KINDS[tag]
    s, u = kind.state(ctx), kind.control(ctx, 'u', 1.5)
    for bad in ('none of these', 'RK45_JAX'):
        if bad == 'RK45_JAX' and kind.jax:
            continue
        made = []
        if ctx.raises(lambda: made.append(kind.make(ctx, method=bad))) is not None:
            continue
        e = made[0]
        kind.put(ctx, e, s)
        was = snapshot(ctx, e)
        act = action(ctx, kind, u)
        for _ in range(2):
            ctx.expect_raise(lambda: ctx.quiet(lambda: e.step(1.0, act)), 'Exception', f'method {bad}')
            unchanged(ctx, e, was, f'a step with method {bad}')
        if kind.m:
            ctx.closes('request after the failure', ctx.flat(act), [(x, ) for x in u])
    ctx.closes('state as assigned', ctx.flat(kind.put(ctx, kind.make(ctx), s).state), [(x, ) for x in s])


def run(ctx, tag, method, how, times=1, form='ndarray', scale=1.5):
    failing(ctx, KINDS[tag], method, how, times, form, scale)


def own(ctx, method, jax, at):
    """dynamics of the caller's own that raise at the n-th evaluation of a step"""
    if jax:
        ctx.rel, ctx.atol = 3e-5, 1e-6
    n = 2
    armed = [None, 0]
    k = ctx.vec('k', n, -2, 2)

    def field(t, y, u):
        if armed[0] is not None:
            armed[1] += 1
            if armed[0] != 'solver' and armed[1] > armed[0]:
                raise Boom('no derivative here')
        return [k[i] * y[1 - i] + u[i] for i in range(n)]

    kw = dict(control_default=ctx.arr([0.25, -0.5]), control_min=-2.0, control_max=2.0, control_map={'a': 0, 'b': 1}, field=field)
    e = generic(ctx, n, n, dyn=dict(integration_method=method, use_jax=jax, state_min=-1e12, state_max=1e12), **kw)
    s = ctx.vec('s', n, -5, 5)
    e.state = ctx.arr(s)

    class Runs(OdeStub):
        """evaluates the derivative on the way"""

        def solve_ivp(self, fun, t_span, y0, **k2):
            a = tuple(k2.get('args') or ())
            for t in (t_span[0], t_span[1]):
                fun(t, y0, *a)
            self.fail = 0 if armed[0] == 'solver' else None
            return super().solve_ivp(fun, t_span, y0, **k2)

        def odeint(self, func, y0, t, *args, **k2):
            for x in (t[0], t[-1]):
                func(y0, x, *args)
            return super().odeint(func, y0, t, *args, **k2)

    def go(j, act):
        if method != 'Euler':
            ctx.set_ode(Runs(ctx, n, tag=f'run{j}', lo=-1e9, hi=1e9))
        ctx.quiet(lambda: e.step(0.5, act))

    go(0, ctx.arr(ctx.vec('v', n, -3, 3)))
    was = snapshot(ctx, e)
    w = ctx.vec('w', n, -3, 3)
    armed[0] = at
    for j, act in enumerate((None, {'b': w[0]}, ctx.arr(w))):
        armed[1] = 0
        got = ctx.raises(lambda: go(1 + j, act))
        if got is None:
            ctx.check(at in (1, 2), 'the error reaches the caller')
            return
        ctx.check('Boom' in got if at != 'solver' else any(x in got for x in ('RuntimeError', 'ValueError', 'ArithmeticError')), 'the error reaches the caller')
        unchanged(ctx, e, was, f'an error in the derivative ({at})')
    armed[0] = None
    x = ctx.vec('x', n, -1e9, 1e9)
    e.state = ctx.arr(x)
    if method == 'Euler':
        go(9, {'b': w[1]})
        c = [0.25, ctx.Max(ctx.Min(w[1], 2.0), -2.0)]
        got = ctx.flat(e.state)
        for i in range(n):
            ctx.close(f'state[{i}] after the next step', got[i], x[i], 0.5 * (k[i] * x[1 - i]), 0.5 * c[i])
    else:
        last = Runs(ctx, n, tag='last', end=ctx.vec('end', n, -1e9, 1e9))
        ctx.set_ode(last)
        ctx.quiet(lambda: e.step(0.5, {'b': w[1]}))
        c = [0.25, ctx.Max(ctx.Min(w[1], 2.0), -2.0)]
        mk, y = ctx.jarr if jax else ctx.arr, ctx.vec('y', n, -1e9, 1e9)
        ctx.closes('next step starts from', last.calls[0]['y0'], [(v, ) for v in x])
        ctx.closes('next step ends at', ctx.flat(e.state), [(v, ) for v in last.end])
        for what, d, z in (('integrated derivative', last.calls[0]['deriv'](0.25, mk(list(y))), y), ('derivative', e.state_dot, last.end)):
            for i, g in enumerate(ctx.flat(d)):
                ctx.close(f'{what}[{i}] of the next step', g, k[i] * z[1 - i], c[i])


def cases(tier):
    out = []
    for k in kinds():
        out.append(Case(f'method-{k}', method, dict(tag=k.tag)))
        for m in ('Euler', 'RK45', 'RK45_JAX'):
            if m == 'RK45_JAX' and not k.jax:
                continue
            small = k.tag in ('cwh3d', 'dub2d', 'int1d')
            for how in ('name', 'type', 'strict') + (('solver', ) if m == 'RK45' else ()):
                if k.m == 0 and how in ('name', 'type', 'strict'):
                    continue
                q = (k.n <= 7 and m == 'Euler' and how in ('name', 'strict')) or (how == 'solver' and k.n <= 7) or (small and m == 'RK45')
                out.append(Case(f'{how}-{k}-{m}', run, dict(tag=k.tag, method=m, how=how), tier='quick' if q else 'thorough'))
            if small:
                for how, form in (('strict', 'dict'), ('strict', 'list')) + ((('solver', 'dict'), ('solver', 'list')) if m == 'RK45' else ()):
                    out.append(Case(f'{how}-{k}-{m}-{form}-3', run, dict(tag=k.tag, method=m, how=how, times=3, form=form),
                                    tier='quick' if k.tag == 'dub2d' or how == 'solver' and k.tag == 'cwh3d' else 'thorough'))
            if k.tag in ('int1d', 'dub2d'):
                for how in ('name', 'type') + (('solver', ) if m == 'RK45' else ()):
                    out.append(Case(f'{how}-{k}-{m}-12', run, dict(tag=k.tag, method=m, how=how, times=12, form='ndarray', scale=0.9), tier='quick' if k.tag == 'int1d' else 'thorough'))
    for m, j in (('Euler', False), ('RK45', False), ('Euler', True), ('RK45', True), ('RK45_JAX', True)):
        for at in (0, 1, 2, 'solver'):
            if (at == 2 and m == 'Euler') or (at == 'solver' and m != 'RK45'):
                continue
            out.append(Case(f'own-{m}-{"jax" if j else "np"}-{at}', own, dict(method=m, jax=j, at=at), tier='quick' if not j or at == 0 else 'thorough'))
    return out
