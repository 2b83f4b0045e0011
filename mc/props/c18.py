"""C18 option sensitivities"""
from .. import opt
from ..alpha import axis, bent, twin
from ..ref import tau
from .c17 import build, forwards, more, tol, vols

LEVEL = 'exploration'
RULE = ('every option model, by closed formula and by bump, x each point of '
        'a lattice of expiries, strikes, forwards and volatilities: delta, '
        'gamma, vega and theta of calls and puts compared with independent '
        'closed derivatives and with finite differences of the values the '
        'models gives for shifted inputs; put-call relation; expired and '
        'zero volatility; all date types; changed shifts and scales')
BOUNDS = {'lattice': '8 expiries x 11 strikes x 7 forwards x 7 volatilities '
          '(thorough: twice as fine in strike and forward); forwards and '
          'volatilities by number, function and curves on four date types '
          'with day counts of the model or one of the curves'}
ASSUMPTIONS = ['accuracy 1e-7 of the normal distribution function',
               'gamma by bump where the price is not close to a kink']
TIMES = (-1., 0., 1 / 365.25, 0.25, 1., 2.5, 10., 30.)
STRIKES = (-0.02, 0.001, 0.02, 0.05, 0.5, 0.9, 1., 1.05, 1.5, 90., 100.)
FORWARDS = (-0.01, 0.0151, 0.02, 1.0007, 1.25, 100., 130.)
VOLS = (0., 5e-4, 0.01, 0.2, 0.6, 1.5, 20.)
BP, DAY = 1e-4, 1 / 365.25


def scenarios(tier):
    fs = FORWARDS if tier == 'quick' else more(FORWARDS)
    for kind in opt.MODELS + ('function',):
        for bump in (False, True):
            for f in fs:
                for v in VOLS:
                    yield {'kind': kind, 'fwd': f, 'vol': v, 'bump': bump,
                           'fine': tier != 'quick'}
            for ax in ('float', 'int', 'date', 'bd'):
                for v in (0.2, 0.0):
                    yield {'axis': ax, 'kind': kind, 'bump': bump, 'fwd': 1.2,
                           'vol': v, 'fine': False}
            for sh in ('DELTA_SHIFT', 'DELTA_SCALE', 'VEGA_SHIFT',
                       'VEGA_SCALE', 'THETA_SHIFT', 'THETA_SCALE'):
                yield {'kind': kind, 'bump': bump, 'attr': sh, 'fwd': 1.2,
                       'vol': 0.3, 'fine': False}
            for ax in ('float', 'int', 'date', 'bd'):
                for fw in ('number', 'curve', 'func', 'fx', 'rate'):
                    for vo in ('number', 'curve', 'terminal', 'func'):
                        for dc in (None, 'own', 'fwd', 'vol'):
                            yield {'kind': kind, 'bump': bump, 'axis': ax,
                                   'fwd': fw, 'vol': vo, 'dc': dc,
                                   'curves': True}


GREEKS = 'delta', 'gamma', 'vega', 'theta'


def run(sc, ctx):
    if 'curves' in sc:
        return curves(sc, ctx)
    f, v, bump = sc['fwd'], sc['vol'], sc['bump']
    kw = {'bump_greeks': bump}
    if 'axis' in sc:
        pts, qs = axis(sc['axis'])
        val = pts[1]
        dates = {d: tau(val, d) for d in pts[:5] + qs[2:7]}
    else:
        val = 0.0
        dates = {t: t for t in TIMES}
    m, kind = build(sc['kind'], twin(val), f, v, **kw)
    sh = dict(DELTA_SHIFT=BP, DELTA_SCALE=BP, VEGA_SHIFT=.01, VEGA_SCALE=.01,
              THETA_SHIFT=DAY, THETA_SCALE=DAY)
    if 'attr' in sc:
        sh[sc['attr']] *= 0.5
        m.__class__ = type('Other', (m.__class__,),
                           {sc['attr']: sh[sc['attr']]})
    ks = [k for k in (more(STRIKES) if sc['fine'] else STRIKES)
          if opt.valid(kind, k, f)]
    for d, t in dates.items():
        for k in ks:
            one(ctx, m, kind, sc['kind'], d, t, k, f, v, bump, sh)
            ctx.case(t, k)
        if opt.valid(kind, f, f):
            for g in GREEKS:
                for pc in ('call', 'put'):
                    x = getattr(m, 'get_%s_%s' % (pc, g))
                    ctx.close(x(d), x(d, f), 'at the money %s', g)


def curves(sc, ctx):
    """time, forward and volatility are taken from curves"""
    ax, kw, dc = sc['axis'], {'bump_greeks': sc['bump']}, tau
    pts, qs = axis(ax)
    fdc = bent if sc['dc'] == 'fwd' else tau
    vdc = bent if sc['dc'] == 'vol' else tau
    f, mf, _ = forwards(sc['fwd'], pts, ax, fdc)
    v, mv = vols(sc['vol'], pts, vdc)
    if sc['dc'] == 'own':
        kw['day_count'] = dc = bent
    elif hasattr(v, 'day_count'):
        dc = vdc
    elif hasattr(f, 'day_count'):
        dc = fdc
    val = pts[2]
    sh = dict(DELTA_SHIFT=BP, DELTA_SCALE=BP, VEGA_SHIFT=.01, VEGA_SCALE=.01,
              THETA_SHIFT=DAY, THETA_SCALE=DAY)
    m, kind = build(sc['kind'], twin(val), f, v, **kw)
    for d in (qs[5], pts[1], pts[4], qs[3], val, pts[6]):
        fw, vo, t = mf(d), mv(d), dc(val, d)
        for k in (0.5, fw, 1.3, 0.02):
            if opt.valid(kind, k, fw):
                one(ctx, m, kind, sc['kind'], d, t, k, fw, vo, sc['bump'], sh,
                    100)  # forwards are the same up to rounding
                ctx.case(str(d), k)


def one(ctx, m, kind, real, d, t, k, f, v, bump, sh, rnd=1):
    call = [getattr(m, 'get_call_' + g)(d, k) for g in GREEKS]
    put = [getattr(m, 'get_put_' + g)(d, k) for g in GREEKS]
    ds, dsc = sh['DELTA_SHIFT'], sh['DELTA_SCALE']
    ctx.close(call[0] - put[0], dsc, 'call and put delta', abs_=1e-15)
    for g, a, b in list(zip(GREEKS, call, put))[1:]:
        ctx.close(a, b, 'call and put %s', g, abs_=1e-16)
    w = '%s %s %s %s' % (t, k, f, v)
    if t <= 0 or not v:
        for g, a in list(zip(GREEKS, call))[1:]:
            ctx.close(a, 0.0, '%s expired or certain %s', g, w)
        x = dsc if k < f else 0.0
        if abs(k - f) > 1e-12 * abs(f):
            ctx.close(call[0], x, 'delta expired or certain %s', w)
        return
    e = tol(f, k, kind)
    if kind == 'intrinsic':
        if abs(f - k) > 2 * ds:
            ctx.close(call[0], dsc if k < f else 0., 'intrinsic delta %s', w,
                      abs_=1e-12 * (abs(f) + abs(k)))
            ctx.close(call[1:], [0., 0., 0.], 'intrinsic %s', w, abs_=2e-12)
        return
    # finite differences of the model's own price
    c = m(t, k, f, v)
    up, dn = m(t, k, f + ds, v), m(t, k, f - ds, v) if opt.valid(
        kind, k, f - ds) else None
    vs, vsc = sh['VEGA_SHIFT'], sh['VEGA_SCALE']
    ts, tsc = sh['THETA_SHIFT'], sh['THETA_SCALE']
    own_vega = (m(t, k, f, v + vs) - c) * vsc / vs
    own_theta = (m(t + ts, k, f, v) - c) * tsc / ts
    own_delta = (up - c) / ds * dsc
    # tolerances: curvature of the price within a shift
    g = opt.gamma(kind, t, k, f, v)
    s = opt._d(kind, t, k, f, v)[1] * (
        1. if kind == 'normal' else f + (
            opt.DISP if kind == 'displaced' else 0.))
    smooth = s > 5 * ds
    eps = rnd * 1e-15 * (abs(f) + abs(k) + abs(c))
    by_bump = bump or real == 'function'
    if by_bump:
        ctx.close(call[0], own_delta, 'bumped delta %s', w,
                  abs_=2 * eps * dsc / ds)
        ctx.close(call[2], own_vega, 'bumped vega %s', w,
                  abs_=2 * eps * vsc / vs)
    else:
        ctx.close(call[0] / dsc, opt.delta(kind, t, k, f, v), 'delta %s', w,
                  rel=0, abs_=1.1e-7)
        ctx.close(call[1] / dsc ** 2, g, 'gamma %s', w, rel=1e-9,
                  abs_=1e-12) if kind == 'normal' else None
        ctx.close(call[2] / vsc, opt.vega(kind, t, k, f, v), 'vega %s', w,
                  rel=1e-9, abs_=1e-12)
    ctx.close(call[3], own_theta, 'theta %s', w, abs_=2 * eps * tsc / ts)
    if dn is not None and (by_bump or kind != 'normal'):
        ctx.close(call[1], (up - 2 * c + dn) * (dsc / ds) ** 2,
                  'bumped gamma %s', w, abs_=8 * eps * (dsc / ds) ** 2)
    if smooth:
        # finite differences are close to the derivative
        ctx.close(call[0] / dsc, opt.delta(kind, t, k, f, v),
                  'derivative delta %s', w, rel=0,
                  abs_=ds / s + 2 * eps / ds + 2e-7 * (1 + abs(f - k) / s)
                  + (1e-9 * (abs(f) + abs(k)) / ds))
        if v > 5 * vs and real != 'function' and t > 5 * ts:
            x = opt.vega(kind, t, k, f, v)
            ctx.close(call[2] / vsc, x, 'derivative vega %s', w, rel=0.2,
                      abs_=2 * e / vs + 0.2 * abs(f))
            x = opt.theta(kind, t, k, f, v)
            ctx.close(call[3] / tsc, x, 'derivative theta %s', w, rel=0.2,
                      abs_=2 * e / ts + 0.2 * abs(f))
