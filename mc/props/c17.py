"""C17 option prices"""
import itertools

from .. import opt
from ..alpha import axis, bent, twin
from ..ref import RCurve, tau

LEVEL = 'exploration'
RULE = ('every option model x each point of a lattice of expiries, strikes, '
        'forwards and volatilities: call and put value compared with erf '
        'based formulas; put-call parity, bounds, monotonicity in strike, '
        'volatility and time, convexity over all neighbours of the lattice; '
        'expired and zero volatility; forward and volatility given as '
        'number, function, curve or price curve, day count by model or '
        'curve, all date types; models made from functions')
BOUNDS = {'lattice': '9 expiries x 13 strikes x 8 forwards x 7 volatilities '
          '(thorough: twice as fine in strike and forward)',
          'curves': 'all combinations of 9 forwards, 6 volatilities, 4 axes'}
ASSUMPTIONS = ['accuracy 1e-7 of the normal distribution function',
               'positive strikes and forwards (after displacement) for log '
               'normal models']
TIMES = (-1., 0., 1 / 365.25, 0.25, 1., 2.5, 10., 30., 60.)
STRIKES = (-0.5, -0.02, 0., 0.001, 0.02, 0.5, 0.9, 1., 1.05, 1.5, 3., 90.,
           100.)
FORWARDS = (-0.25, 0., 0.015, 0.02, 1., 1.25, 100., 130.)
VOLS = (0., 1e-4, 0.01, 0.2, 0.6, 1.5, 20.)
FWD = 'number', 'zero', 'func', 'curve', 'price', 'rate', 'none', 'fx', 'yield'
VOL = 'number', 'func', 'curve', 'terminal', 'instant', 'none'


def more(x):
    x = sorted(x)
    return tuple(sorted(set(x) | {(a + b) / 2 for a, b in zip(x, x[1:])}))


def scenarios(tier):
    fs = FORWARDS if tier == 'quick' else more(FORWARDS)
    for kind in opt.MODELS + ('function', 'formula'):
        for f in fs:
            for v in VOLS:
                yield {'kind': kind, 'fwd': f, 'vol': v,
                       'fine': tier != 'quick'}
        for ax in ('float', 'int', 'date', 'bd'):
            for f in FWD:
                for v in VOL:
                    for dc in ('none', 'act360', 'vol', 'fwd'):
                        yield {'curves': kind, 'axis': ax, 'fwd': f,
                               'vol': v, 'dc': dc}


def build(kind, *a, **kw):
    """-> (model, kind of reference)"""
    import dcf.models.optionpricing as op
    if kind == 'function':
        def bachelier(time, strike, forward, volatility):
            return opt.call('normal', time, strike, forward, volatility)
        return op.OptionPayOffModel.from_function(bachelier)(*a, **kw), \
            'normal'
    if kind == 'formula':
        class M(op.OptionPayOffModel):
            def __call__(self, time, strike, forward, volatility):
                return opt.call('normal', time, strike, forward, volatility)
        return M(*a, **kw), 'normal'
    return opt.model(kind, *a, **kw), kind


def tol(f, k, kind):
    s = abs(f) + abs(k) + (2 * opt.DISP if kind == 'displaced' else 0)
    return 1e-7 * s + 1e-12


def run(sc, ctx):
    if 'curves' in sc:
        return curves(sc, ctx)
    f, v = sc['fwd'], sc['vol']
    m, kind = build(sc['kind'], 0.0, f, v)
    cols = {}
    ks = [k for k in (more(STRIKES) if sc['fine'] else STRIKES)
          if opt.valid(kind, k, f)]
    for t in TIMES:
        for k in ks:
            e = tol(f, k, kind)
            c, p = m.get_call_value(t, k), m.get_put_value(t, k)
            ctx.close(c, opt.call(kind, t, k, f, v), 'call %s %s', t, k,
                      rel=0, abs_=e)
            ctx.close(p, opt.put(kind, t, k, f, v), 'put %s %s', t, k,
                      rel=0, abs_=e)
            ctx.close(c - p, f - k, 'parity %s %s', t, k, rel=0,
                      abs_=1e-13 * (abs(c) + abs(p) + abs(f) + abs(k)))
            ctx.ok(c >= max(f - k, 0.) - e and p >= max(k - f, 0.) - e,
                   'below intrinsic value %s %s: %s %s', t, k, c, p)
            if kind == 'lognormal':
                ctx.ok(c <= f + e and p <= k + e, 'above bound: %s %s', c, p)
            if opt.dead(kind, t, v):
                ctx.ok(abs(c - max(f - k, 0.)) <= 1e-14 * abs(f - k),
                       'not intrinsic: %s', c)
            else:
                ctx.close(m(t, k, f, v), c, 'called %s %s', t, k)
            cols[t, k] = c, p, e
            ctx.case(t, k)
    for t in TIMES:
        for a, b in zip(ks, ks[1:]):
            (ca, pa, ea), (cb, pb, eb) = cols[t, a], cols[t, b]
            e = ea + eb
            ctx.ok(cb <= ca + e and pa <= pb + e, 'not monotone in strike')
            ctx.ok(ca - cb <= b - a + e, 'strike slope')
        for a, b, c in itertools.combinations(ks, 3):
            w = (b - a) / (c - a)
            e = sum(cols[t, x][2] for x in (a, b, c))
            for i in (0, 1):
                ctx.ok(cols[t, b][i] <= (1 - w) * cols[t, a][i] +
                       w * cols[t, c][i] + e, 'not convex in strike')
    for k in ks:
        for s, t in zip(TIMES, TIMES[1:]):
            e = 2 * cols[t, k][2]
            for i in (0, 1):
                ctx.ok(cols[s, k][i] <= cols[t, k][i] + e,
                       'not rising in time')
    higher, _ = build(sc['kind'], 0.0, f, v * 1.1 + 0.01)
    for t in TIMES:
        for k in ks:
            ctx.ok(higher.get_call_value(t, k) >= cols[t, k][0] -
                   2 * cols[t, k][2], 'not rising in volatility')
        # at the money by default
        if opt.valid(kind, f, f):
            ctx.close(m.get_call_value(t), opt.call(kind, t, f, f, v),
                      'at the money', abs_=tol(f, f, kind))
            ctx.close(m.get_put_value(t), opt.put(kind, t, f, f, v),
                      'at the money', abs_=tol(f, f, kind))
    ctx.sample({'first': str(list(cols.items())[:2])})


def forwards(name, pts, ax, dc=tau):
    import dcf
    from ..flows import TENOR
    from ..rates import RRate
    g, z = [pts[1], pts[3], pts[4]], [1.0, 1.5, 0.75]
    if name == 'number':
        return 1.25, lambda d: 1.25, None
    if name in ('zero', 'none'):
        return (0.0 if name == 'zero' else None), lambda d: 0.0, None
    m = RCurve(zip(g, z), 'linear_scheme', pts[1], dc)
    if name == 'func':
        return (lambda d: m(d)), m, None
    if name == 'curve':
        return dcf.DateCurve(g, z, day_count=dc), m, None
    if name in ('fx', 'yield'):
        from ..ref import exp
        m = RCurve(zip(g, z), 'log_linear_scheme', pts[1], dc)
        dom = dcf.ZeroRateCurve([pts[0]], [0.03], day_count=dc)
        fgn = dcf.ZeroRateCurve([pts[0]], [0.01], day_count=dc)
        c = dcf.FxForwardCurve(g, z, domestic_curve=dom, foreign_curve=fgn,
                               day_count=dc) if name == 'fx' else \
            dcf.ForwardCurve(g, z, day_count=dc, yield_curve=dom)
        r = -0.02 if name == 'fx' else 0.03
        return c, lambda d: m(d) if d <= g[-1] else \
            m(g[-1]) * exp(
                r * (dc(pts[0], d) - dc(pts[0], g[-1]))), None
    if name == 'price':
        m = RCurve(zip(g, z), 'log_linear_scheme', pts[1], dc)
        c = dcf.ForwardCurve(g, z, day_count=dc, yield_curve=0.02)
        from ..ref import exp

        def price(d):
            return m(d) if d <= g[-1] else \
                m(g[-1]) * exp(0.02 * dc(g[-1], d))
        return c, price, None
    z = [0.01, 0.04, 0.02]
    m = RRate('ZeroRateCurve', zip(g, z), pts[0], dc=dc, tenor=TENOR[ax])
    return dcf.ZeroRateCurve(g, z, origin=pts[0], day_count=dc,
                             forward_tenor=TENOR[ax]), \
        lambda d: m.cash(d, d + TENOR[ax]), None


def vols(name, pts, dc=tau):
    import dcf
    g, z = [pts[1], pts[2], pts[4]], [0.3, 0.2, 0.5]
    if name == 'number':
        return 0.25, lambda d: 0.25
    if name == 'none':
        return None, lambda d: 0.0
    m = RCurve(zip(g, z), 'linear_scheme', pts[1], dc)
    if name == 'func':
        return (lambda d: m(d)), m
    if name == 'curve':
        return dcf.DateCurve(g, z, day_count=dc), m
    if name == 'terminal':
        return dcf.TerminalVolatilityCurve(g, z, origin=pts[0],
                                           day_count=dc), \
            RCurve(zip(g, z), 'linear_scheme', pts[0], dc)
    c = dcf.InstantaneousVolatilityCurve([pts[0]], [0.35], day_count=dc)
    return c, lambda d: 0.35


def curves(sc, ctx):
    """time, forward and volatility are taken from curves"""
    ax = sc['axis']
    pts, qs = axis(ax)
    # day count of the model, of the volatility, of the forward curve
    kw, dc, name = {}, tau, sc['dc']
    fdc = bent if name == 'fwd' else tau
    vdc = bent if name == 'vol' else tau
    f, mf, _ = forwards(sc['fwd'], pts, ax, fdc)
    v, mv = vols(sc['vol'], pts, vdc)
    if name == 'act360':
        kw['day_count'] = dc = bent
    elif hasattr(v, 'day_count'):
        dc = vdc
    elif hasattr(f, 'day_count'):
        dc = fdc
    for val in (pts[0], pts[2]):
        m, kind = build(sc['curves'], twin(val), f, v, **kw)
        more = [pts[6], pts[6] + pts[6]] if ax in ('float', 'int') else [
            type(pts[6])(2087, 5, 6)]
        if ax == 'float':
            more += [val + 0.001, val + 40.]
        for d in sorted(pts[:6] + qs[2:7] + more):
            t, fw = dc(val, d), mf(d)
            # volatility and forward before its first date
            if sc['vol'] == 'terminal' and d <= pts[0]:
                continue
            vo = mv(d)
            for k in (0.5, 1.25, 0.0, 0.02, None, -1, 2):
                kk = fw if k is None else k
                if not opt.valid(kind, kk, fw):
                    continue
                c, p = m.get_call_value(twin(d), k), m.get_put_value(d, k)
                ctx.close(c, opt.call(kind, t, kk, fw, vo),
                          'call %s on %s', k, d, rel=1e-9,
                          abs_=tol(fw, kk, kind))
                ctx.close(p, opt.put(kind, t, kk, fw, vo),
                          'put %s on %s', k, d, rel=1e-9,
                          abs_=tol(fw, kk, kind))
                ctx.case(str(val), str(d), k)
            x = m.details(d, 0.5)
            ctx.close(x['time to expiry'], t, 'time to expiry', abs_=1e-14)
            ctx.close(x['strike'], 0.5, 'strike')
            if fw:
                ctx.close(x['forward'], fw, 'forward')
            if vo:
                ctx.close(x['volatility'], vo, 'volatility')
            ctx.ok(x['valuation date'] == val, 'valuation date')
    ctx.sample({'valuation': str(val), 'last': str(d)})
