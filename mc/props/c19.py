"""C19 binary options"""
from .. import opt
from ..alpha import bent, axis, twin
from ..ref import tau
from .c17 import build, forwards, more, vols

LEVEL = 'exploration'
RULE = ('every binary option model (closed formulas, and the general one '
        'made from each option model or formula) x each point of a lattice '
        'of expiries, strikes, forwards and volatilities: values of call and '
        'put compared with the independent probability of ending above the '
        'strike, parity, range, monotonicity, slope of vanilla prices in '
        'strike; sensitivities compared with closed derivatives and finite '
        'differences; expired and zero volatility; all date types and curves')
BOUNDS = {'lattice': '8 expiries x 12 strikes x 7 forwards x 6 volatilities '
          '(thorough: twice as fine in strike and forward)'}
ASSUMPTIONS = ['accuracy 1e-7 of the normal distribution function',
               'general binary models are call spreads of the documented '
               'width', 'forward not equal to strike where the payoff jumps']
TIMES = (-1., 0., 1 / 365.25, 0.25, 1., 2.5, 10., 30.)
STRIKES = (-0.02, 0., 0.001, 0.02, 0.05, 0.5, 0.9, 1., 1.05, 1.5, 90., 100.)
FORWARDS = (-0.01, 0.0151, 0.0203, 1.0007, 1.25, 100.01, 130.)
VOLS = (0., 0.01, 0.2, 0.6, 1.5, 20.)
BP, DAY = 1e-4, 1 / 365.25


def scenarios(tier):
    fs = FORWARDS if tier == 'quick' else more(FORWARDS)
    for kind in opt.MODELS:
        for f in fs:
            for v in VOLS:
                for bump in (False, True):
                    yield {'kind': kind, 'fwd': f, 'vol': v, 'bump': bump,
                           'fine': tier != 'quick'}
    for kind in opt.MODELS + ('function', 'formula'):
        for f in fs:
            for v in VOLS:
                for sh in (None, 0.01, 1e-5):
                    yield {'general': kind, 'fwd': f, 'vol': v, 'shift': sh,
                           'fine': tier != 'quick'}
        for ax in ('float', 'int', 'date', 'bd'):
            for f in ('number', 'curve', 'price', 'func', 'zero', 'fx'):
                for v in ('number', 'func', 'terminal', 'none'):
                    for how in ('inner', 'own', 'mixed'):
                        yield {'curves': kind, 'axis': ax, 'fwd': f,
                               'vol': v, 'how': how}


def run(sc, ctx):
    if 'curves' in sc:
        return curves(sc, ctx)
    f, v = sc['fwd'], sc['vol']
    if 'general' in sc:
        return general(sc, ctx, f, v)
    kind = sc['kind']
    m = opt.model(kind, 0.0, f, v, bump_greeks=sc['bump'], binary=True)
    # price at any forward
    ks = [k for k in (more(STRIKES) if sc['fine'] else STRIKES)
          if opt.valid(kind, k, f) and k != f]
    vanilla = opt.model(kind, 0.0, f, v)
    for t in TIMES:
        last = None
        for k in ks:
            w = '%s %s %s %s' % (t, k, f, v)
            c, p = value(ctx, m, kind, t, k, f, v, w, 1.1e-7)
            ctx.ok(last is None or c <= last + 2.2e-7, 'rising in strike')
            last = c
            # slope of the vanilla price
            h = 1e-3 * max(abs(k), 1e-2)
            if opt.dead(kind, t, v):
                if abs(f - k) > 2 * h:
                    s = vanilla.get_call_value(t, k - h) - \
                        vanilla.get_call_value(t, k + h)
                    ctx.close(c, s / (2 * h), 'strike slope %s', w,
                              abs_=1e-9 * abs(f / h))
            else:
                sig = opt._d(kind, t, k, f, v)[1] * (
                    1. if kind == 'normal' else k + (
                        opt.DISP if kind == 'displaced' else 0.))
                if sig > 10 * h:
                    s = opt.call(kind, t, k - h, f, v) - \
                        opt.call(kind, t, k + h, f, v)
                    ctx.close(c, s / (2 * h), 'strike slope %s', w,
                              abs_=2e-7 + (h / sig) ** 2 +
                              1e-13 * (abs(f) + abs(k)) / h)
            greeks(ctx, m, kind, t, k, f, v, w, sc['bump'], True)
            ctx.case(t, k)
    ctx.sample({'strikes': ks, 'cases': len(ctx.cases)})


def value(ctx, m, kind, t, k, f, v, w, tol):
    c, p = m.get_call_value(t, k), m.get_put_value(t, k)
    ctx.close(c, opt.digital(kind, t, k, f, v), 'binary call %s', w, rel=0,
              abs_=tol)
    ctx.close(p, 1. - opt.digital(kind, t, k, f, v), 'binary put %s', w,
              rel=0, abs_=tol)
    ctx.close(c + p, 1.0, 'parity %s', w, abs_=1e-14)
    ctx.ok(-tol <= c <= 1 + tol and -tol <= p <= 1 + tol, 'range %s: %s %s',
           w, c, p)
    if opt.dead(kind, t, v) and kind != 'intrinsic':
        ctx.ok(c in (0., 1.) and p in (0., 1.), 'one or nothing %s', c)
    return c, p


def greeks(ctx, m, kind, t, k, f, v, w, bump, closed, at=None):
    """closed derivatives resp. documented finite differences"""
    # forwards of curves are the same up to rounding
    eps = 1e-14 if at is None else 1e-10
    at = t if at is None else at
    call = [getattr(m, 'get_call_' + g)(at, k)
            for g in ('delta', 'gamma', 'vega', 'theta')]
    put = [getattr(m, 'get_put_' + g)(at, k)
           for g in ('delta', 'gamma', 'vega', 'theta')]
    for a, b in zip(call, put):
        ctx.ok(a == -b, 'call and put sensitivity %s: %s %s', w, a, b)
    if t <= 0 or not v or kind == 'intrinsic':
        if abs(f - k) > 1e-3:
            ctx.close(call, [0.] * 4, 'sensitivities of certain payoff %s', w,
                      abs_=1e-10)
        return
    c = m(t, k, f, v)
    up, dn = m(t, k, f + BP, v), None
    if opt.valid(kind, k, f - BP):
        dn = m(t, k, f - BP, v)
    own = [up - c, up - 2 * c + dn if dn is not None else None,
           m(t, k, f, v + .01) - c, m(t + DAY, k, f, v) - c]
    d, g, ve, th = opt.digital_greeks(kind, t, k, f, v)
    if bump:
        ctx.close(call[0], own[0], 'bumped delta %s', w, abs_=eps)
        ctx.close(call[2], own[2], 'bumped vega %s', w, abs_=eps)
    else:
        ctx.close(call[0] / BP, d, 'delta %s', w, rel=1e-9, abs_=1e-12)
        ctx.close(call[2] / .01, ve, 'vega %s', w, rel=1e-9, abs_=1e-12)
        if kind == 'normal':
            ctx.close(call[1] / BP ** 2, g, 'gamma %s', w, rel=1e-9,
                      abs_=1e-12)
    ctx.close(call[3], own[3], 'theta %s', w, abs_=eps)
    if own[1] is not None and (bump or kind != 'normal'):
        ctx.close(call[1], own[1], 'bumped gamma %s', w, abs_=eps)
    s = opt._d(kind, t, k, f, v)[1] * (
        1. if kind == 'normal' else f + (
            opt.DISP if kind == 'displaced' else 0.))
    if s > 20 * BP and closed:
        ctx.close(call[0] / BP, d, 'derivative delta %s', w, rel=0,
                  abs_=0.5 * BP / s ** 2 + 1e-6 / s + 4e-5)
    if v > 0.1 and closed:
        # rounded finite difference of probability
        ctx.close(call[2], .01 * ve, 'derivative vega %s', w, rel=.5,
                  abs_=2e-4 if v > .3 else 2e-3)
        if t > 0.1:
            ctx.close(call[3], DAY * th, 'derivative theta %s', w, rel=.5,
                      abs_=2e-4)


def general(sc, ctx, f, v):
    """call spreads of other models"""
    import dcf.models.optionpricing as op
    sh = sc['shift'] or BP
    inner, kind = build(sc['general'], 0.0, f, v)
    kw = {} if sc['shift'] is None else {'strike_shift': sh}
    models = [op.BinaryOptionPayOffModel(inner, **kw),
              op.BinaryOptionPayOffModel(inner.__call__, valuation_date=0.0,
                                         forward_curve=f, volatility_curve=v,
                                         **kw)]
    if sc['shift']:
        models.append(type('Steps', (op.BinaryOptionPayOffModel,),
                           {'STRIKE_SHIFT': sh})(inner))
    ks = [k for k in (more(STRIKES) if sc['fine'] else STRIKES)
          if opt.valid(kind, k - sh, f) and k != f]
    for m in models:
        for t in TIMES:
            for k in ks:
                w = '%s %s %s %s' % (t, k, f, v)
                c, p = m.get_call_value(t, k), m.get_put_value(t, k)
                ctx.close(c + p, 1.0, 'parity %s', w, abs_=1e-12)
                if opt.dead(kind, t, v):
                    if kind != 'intrinsic' or abs(f - k) > sh:
                        x = 1. if f > k else 0.
                        ctx.close(c, x, 'certain %s', w, abs_=1e-7)
                else:
                    s = inner(t, k - sh / 2, f, v) - \
                        inner(t, k + sh / 2, f, v)
                    ctx.close(c, s / sh, 'call spread %s', w, rel=1e-9,
                              abs_=1e-14 * (abs(f) + abs(k)) / sh)
                    sig = opt._d(kind, t, k, f, v)[1] * (
                        1. if kind == 'normal' else k + (
                            opt.DISP if kind == 'displaced' else 0.))
                    if sig > 5 * sh:
                        e = 1e-7 + 1e-8 * (abs(f) + abs(k) + opt.DISP) / sh
                        ctx.close(c, opt.digital(kind, t, k, f, v),
                                  'binary call %s', w, rel=0,
                                  abs_=e + (sh / sig) ** 2 + 2e-7 *
                                  abs(f - k) / sig)
                    greeks(ctx, m, kind, t, k, f, v, w, True, False)
                if t <= 0 or not v:
                    for g in ('delta', 'gamma', 'vega', 'theta'):
                        x = getattr(m, 'get_call_' + g)(t, k)
                        ctx.close(x, 0.0, '%s of certain payoff %s', g, w)
                        x = getattr(m, 'get_put_' + g)(t, k)
                        ctx.close(x, 0.0, '%s of certain payoff %s', g, w)
                ctx.case(t, k)
    ctx.sample({'strikes': ks, 'cases': len(ctx.cases)})


def curves(sc, ctx):
    """valuation date, curves and day count of own or of the inner model"""
    import dcf.models.optionpricing as op
    ax, how = sc['axis'], sc['how']
    pts, qs = axis(ax)
    f, mf, _ = forwards(sc['fwd'], pts, ax)
    v, mv = vols(sc['vol'], pts)
    for val in (pts[0], pts[2]):
        if how == 'inner':
            inner, kind = build(sc['curves'], twin(val), f, v,
                                day_count=bent)
            m = op.BinaryOptionPayOffModel(inner)
        elif how == 'own':
            inner, kind = build(sc['curves'], qs[3], 7.0, 9.0)
            m = op.BinaryOptionPayOffModel(
                inner, valuation_date=twin(val), forward_curve=f,
                volatility_curve=0.0 if v is None else v, day_count=bent)
        else:
            inner, kind = build(sc['curves'], qs[3], 7.0, v,
                                day_count=bent)
            m = op.BinaryOptionPayOffModel(
                inner, valuation_date=twin(val), forward_curve=f)
        models = [m]
        if sc['curves'] in opt.MODELS:
            models.append(opt.model(sc['curves'], val, f, v, binary=True,
                                    day_count=bent))
        for m in models:
            for d in sorted(pts[:6] + qs[2:7]):
                if sc['vol'] == 'terminal' and d <= pts[0]:
                    continue
                t, fw, vo = bent(val, d), mf(d), mv(d)
                for k in (0.5, 1.25, 0.02):
                    if fw == k or not opt.valid(kind, k - BP, fw):
                        continue
                    c = m.get_call_value(twin(d), k)
                    p = m.get_put_value(d, k)
                    w = opt.digital(kind, t, k, fw, vo)
                    # finite difference of approximated distribution
                    e = 1e-5 + 2e-7 * (1 + 1 / max(vo, 0.1)) * 2
                    if t > 0 and vo:
                        e += 1e-9 * (fw + k + 1) / BP + 1e-8 / t
                    ctx.close(c, w, 'call %s on %s', k, d, rel=0, abs_=e)
                    ctx.close(p, 1 - w, 'put %s on %s', k, d, rel=0, abs_=e)
                    greeks(ctx, m, kind, t, k, fw, vo, w,
                           m is not models[-1] or len(models) < 2, False, d)
                    ctx.case(str(val), str(d), k)
