"""C40: splitting multi-aircraft results; frozen objects."""
from checks.f16 import *

BOUNDS = '1 to 3 (thorough 5) aircraft and 1 to 3 ticks, 5, 8 and 12 (thorough 20) aircraft at 2 ticks, 40 (thorough 300) ticks of 1 and 2 aircraft, every value within 1e6, with and without extended states'
KEYS = ('xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list')


def split(ctx, n, ticks, extended):
    u = ctx.mod(AB + 'util')
    rows = [ctx.vec(f's{t}_', 16 * n, -1e6, 1e6) for t in range(ticks)]
    res = dict(status='finished', times=[0.5 * t for t in range(ticks)], modes=['a'] * ticks, states=ctx.arr(rows))
    if extended:
        for k in KEYS:
            res[k] = [tuple(ctx.vec(f'{k}{t}_', n, -1e6, 1e6)) for t in range(ticks)]
    keep = dict(res)
    seen = 0
    for i in range(n):
        r = u.extract_single_result(res, i, llc(ctx))
        for k in ('status', 'times', 'modes'):
            ctx.check(r[k] == keep[k], f'{k} of aircraft {i}')
        got = r['states']
        ctx.check(tuple(got.shape) == (ticks, 16), f'shape of aircraft {i}')
        want = [rows[t][16 * i + j] for t in range(ticks) for j in range(16)]
        ctx.closes(f'states of aircraft {i}', ctx.flat(got), [(v, ) for v in want])
        seen += len(want)
        for k in KEYS:
            ctx.check((k in r) == extended, f'{k} present')
            if extended and k in r:
                ctx.check(len(r[k]) == ticks, f'length of {k}')
                for t in range(ticks):
                    e = r[k][t]
                    if n == 1:
                        e = e[0]
                    ctx.close(f'{k}[{t}] of aircraft {i}', e, keep[k][t][i])
    ctx.check(seen == ticks * 16 * n, 'nothing lost')
    ctx.closes('result untouched', ctx.flat(res['states']), [(v, ) for r in rows for v in r])
    ctx.check(set(res) == set(keep), 'keys untouched')


def out_of_range(ctx):
    u = ctx.mod(AB + 'util')
    res = dict(status='finished', times=[0.0], modes=['a'], states=ctx.arr([ctx.vec('s', 16, -1, 1)]))
    ctx.expect_raise(lambda: u.extract_single_result(res, 1, llc(ctx)), 'AssertionError', 'second of one aircraft')


def names(ctx):
    u = ctx.mod(AB + 'util')
    want = ['vt', 'alpha', 'beta', 'phi', 'theta', 'psi', 'P', 'Q', 'R', 'pos_n', 'pos_e', 'alt', 'pow']
    ctx.check(list(u.get_state_names()) == want, 'state names')
    i = u.StateIndex
    idx = dict(VT=0, VEL=0, ALPHA=1, BETA=2, PHI=3, THETA=4, PSI=5, P=6, Q=7, R=8, POSN=9, POS_N=9, POSE=10, POS_E=10, ALT=11, H=11, POW=12)
    for k, v in idx.items():
        ctx.check(getattr(i, k) == v, f'index {k}')


FIELDS = tuple('''status times modes states xd_list ps_list Nz_list Ny_r_list u_list altitude Nz v alpha beta psMaxAccelDeg betaMaxDeg psMax betaMax
    Altitude nz vt t y dt yprev tprev tstart tend tstep step_size der_func time_tol fun rv state name info data value values key result results cache _cache temp
    debug verbose llc ctrlLimits xequil uequil K_lqr K_long K_lat gains limits mode model lead sim ThrottleMax ThrottleMin ElevatorMax ElevatorMaxDeg AlphaMinDeg
    AlphaMaxDeg NzMax NzMin NyMax a b c d e f g h i j k m n p q r s u w z A B C X Y Z _ __ _x __x__ _private _result _state _y _t'''.split())


def frozen(ctx):
    u = ctx.mod(AB + 'util')
    v, w = ctx.real('v', -1e6, 1e6), ctx.real('w', -1e6, 1e6)
    m = ctx.mod(LOW + 'low_level_controller')
    objs = [(u.SafetyLimits(), 'altitude'), (m.CtrlLimits(), 'NzMax'), (m.LowLevelController(), 'uequil'),
            (u.Euler(lambda t, x: x, 0.0, ctx.arr([1.0]), 1.0, step=0.1), 'time_tol')]
    for o, a in objs:
        setattr(o, a, v)
        ctx.close(f'{a} updated', getattr(o, a), v)
        for new in ('other', a + '_', '_' + a, '__' + a, 'x', a.upper() + 'X', a[:-1], 'frozen', 'freeze', '_frozen_', 'Values') + FIELDS:
            if hasattr(o, new):
                continue
            ctx.expect_raise(lambda o=o, new=new: setattr(o, new, w), 'TypeError', f'new field of {type(o).__name__}')
            ctx.check(not hasattr(o, new), 'not created')
    f = u.Freezable()
    f.x = v
    g = u.Freezable()
    f.freeze_attrs()
    ctx.expect_raise(lambda: setattr(f, 'y', w), 'TypeError', 'new field after freezing')
    f.x = w
    ctx.close('update after freezing', f.x, w)
    g.y = w
    ctx.close('another object is not frozen', g.y, w)


def cases(tier):
    out = [Case('names', names), Case('frozen', frozen), Case('out_of_range', out_of_range)]
    for n in range(1, 4 if tier == 'quick' else 6):
        for t in (1, 2, 3):
            for e in (False, True):
                out.append(Case(f'split-{n}-{t}-{"ext" if e else "plain"}', split, dict(n=n, ticks=t, extended=e)))
    big = [(6, 2), (8, 2), (12, 2), (1, 40), (2, 40)] + ([] if tier == 'quick' else [(20, 2), (1, 300), (2, 130)])
    for n, t in big:
        for e in (False, True):
            out.append(Case(f'split-{n}-{t}-{"ext" if e else "plain"}', split, dict(n=n, ticks=t, extended=e)))
    return out
