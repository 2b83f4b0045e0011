"""C16 contingent payoffs"""
import itertools

from .. import opt
from ..alpha import MANY, bent, axis, twin
from ..flows import OFF, periods, shift
from ..ref import RCurve, tau

LEVEL = 'exploration'
RULE = ('capped and floored rate lists for all pairs of cap and floor (none, '
        'negative, zero, below, at, above the forward), option lists with '
        'amounts, strikes and put/call given as lists or numbers, strategies '
        'of all signed combinations of up to three out of eight options and '
        'of ten options, each x option model x volatility x forward curve x '
        'offsets x valuation date (before, at and after fixing); flows by '
        'item, call, payoff and table compared with independent option '
        'formulas; rates stay within cap and floor if intrinsic or expired; '
        'parity and refusal of more than ten options')
BOUNDS = {'options per strategy': '1 to 3 (all), 10', 'strikes': 8}
ASSUMPTIONS = ['accuracy 1e-7 of the normal distribution function',
               'positive strikes and forwards (after displacement) for log '
               'normal models']
EXTREME = (-0.5, None, 2.0, 100., None, -0.03, 0.5, 0.02, 0.02)
STRIKES = (None, -0.01, 0.0, 0.005, 0.02, 0.0325, 0.08)
OFFS = 'none', 'fix', 'pay', 'both'
VAL = 0, 1, 2, 3
MODELS = opt.MODELS + ('zerovol',)


def scenarios(tier):
    for ax in ('float', 'int', 'date', 'bd'):
        for mod in MODELS:
            for off in OFFS:
                for val in VAL:
                    for fwd in ('curve', 'flat', 'none'):
                        if tier == 'quick' and (OFFS.index(off) + val +
                                                len(fwd)) % 2:
                            continue
                        yield {'rate': mod, 'axis': ax, 'off': off,
                               'val': val, 'fwd': fwd}
                    yield {'list': mod, 'axis': ax, 'off': off, 'val': val}
                for val in (1, 2):
                    yield {'strategy': mod, 'axis': ax, 'off': off,
                           'val': val, 'n': 3 if tier != 'quick' or
                           (ax, off) in (('float', 'none'), ('bd', 'both'))
                           else 2}
        yield {'misc': 1, 'axis': ax}


def setup(sc, kind, level=1.):
    """-> pts, qs, model, kind, vol, valuation date, forward, forward model"""
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=24)
    v = [qs[1], pts[0], pts[2], qs[-1]][sc['val']]
    vol = 0.2 if kind in ('lognormal', 'displaced') else 0.015 * level
    if kind == 'zerovol':
        kind, vol = 'normal', 0.0
    fwd = sc.get('fwd', 'curve')
    if fwd == 'curve':
        g, z = [pts[1], pts[3], pts[5]], [0.02 * level, 0.035 * level,
                                          0.01 * level]
        c, m = dcf.DateCurve(g, z), RCurve(zip(g, z), 'linear_scheme', pts[1])
    elif fwd == 'flat':
        c, m = 0.02 * level, lambda d: 0.02 * level
    else:
        c, m = None, lambda d: 0.0
    model = opt.model(kind, twin(v), c, vol)
    return pts, qs, model, kind, vol, v, m


def offsets(sc):
    off = OFF[sc['axis']]
    fix = off if sc['off'] in ('fix', 'both') else None
    pay = off if sc['off'] in ('pay', 'both') else None
    kw = {}
    if fix:
        kw['fixing_offset'] = fix
    if pay:
        kw['pay_offset'] = pay
    return fix, pay, kw


def rate(sc, ctx):
    import dcf
    kind = sc['rate']
    pts, qs, model, kind, vol, v, m = setup(sc, kind)
    fix, pay, kw = offsets(sc)
    for idx in ((1, 2, 4), (5,), (2, 3, 4, 5), MANY[0]):
        dates = [pts[i] for i in idx]
        am = ([100., -40., 0., 7., 1.] * 5)[:len(dates)]
        per = periods(dates, pts[0])
        if pay:
            per = [(shift(s, pay), shift(e, pay)) for s, e in per]
        fx = [shift(s, fix) if fix else s for s, _ in per]
        for flo, cap in itertools.product(STRIKES, STRIKES) \
                if len(idx) < 9 else itertools.chain(
                    zip(STRIKES, STRIKES[::-1]),
                    zip(EXTREME, EXTREME[::-1])):
            f_ = [m(x) for x in fx]
            if not all(opt.valid(kind, k, f) for k in (flo, cap)
                       if k is not None for f in f_):
                continue
            dc, fr = (bent, 0.01) if flo == 0.0 else (tau, 0.0)
            k2 = dict(kw)
            if flo == 0.0:
                k2.update(day_count=bent, fixed_rate=0.01)
            if flo is not None:
                k2['floor_strike'] = flo
            if cap is not None:
                k2['cap_strike'] = cap
            real = dcf.ContingentRateCashFlowList(
                dates, am, origin=pts[0], payoff_model=model, **k2)
            want = []
            for (s, e), x, f, a in zip(per, fx, f_, am):
                y = f + fr
                t = tau(v, x)
                if flo is not None:
                    y += opt.put(kind, t, flo, f, vol)
                if cap is not None:
                    y -= opt.call(kind, t, cap, f, vol)
                want.append(y * dc(s, e) * a)
                # the rate is within cap and floor
                if opt.dead(kind, t, vol) and (
                        flo is None or cap is None or flo <= cap):
                    z = f if flo is None else max(f, flo)
                    z = z if cap is None else min(z, cap)
                    assert abs(y - fr - z) < 1e-12
            y = max(dc(s, e) for s, e in per)
            see(ctx, real, dates, want, 1.6e-5 * y * (
                1.7 if kind == 'displaced' else 0.15), (flo, cap))
            ctx.case(flo, cap, idx)
            # put and call amounts are linked to the plain list
            if flo is None and cap is None:
                plain = dcf.RateCashFlowList(
                    dates, am, origin=pts[0],
                    forward_curve=model.forward_curve, **k2)
                ctx.close(list(real[dates]), list(plain[dates]), 'plain')
            # payoffs as rates if called by number or curve
            p = real.payoff(dates[0])
            s, e = per[0]
            ctx.close(p(0.03), am[0] * dc(s, e) * (0.03 + fr), 'by number')
    ctx.sample({'last': [flo, cap], 'flows': want})


def see(ctx, real, dates, want, tol, what):
    got = [real[d] for d in dates]
    ctx.close(got, want, '%s: flows', what, abs_=tol)
    ctx.close(list(real[tuple(dates)]), got, '%s: tuple', what)
    ctx.close(list(real()[dates]), got, '%s: called', what)
    # as leg and by any other model
    import dcf
    two = dcf.CashFlowLegList([real, dcf.CashFlowList(dates[:1], [0])])
    ctx.close([two[d] for d in dates], got, '%s: leg', what, abs_=1e-12)
    ctx.close(list(two()[dates]), got, '%s: leg called', what, abs_=1e-12)
    model, other = real.payoff_model, None
    if model is not None and isinstance(model.volatility_curve, float):
        other = type(model)(model.valuation_date, model.forward_curve,
                            model.volatility_curve * 1.5, model.day_count,
                            model.bump_greeks, **(
                                {'displacement': model.displacement}
                                if hasattr(model, 'displacement') else {}))
        real.payoff_model = other
        want = [real[d] for d in dates]
        real.payoff_model = model
        ctx.close(list(real(other)[dates]), want, '%s: other model', what)
        ctx.close(list(two(other)[dates]), want, '%s: other model of legs',
                  what, abs_=1e-12)
    t = real.table
    rows = [dict(zip(t[0], r)) for r in t[1:]]
    ctx.close([r['cashflow'] for r in rows], got, '%s: table', what)
    ctx.ok([r['pay date'] for r in rows] == list(real.domain), 'pay dates')
    ctx.close([real.payoff(d)(real.payoff_model) for d in dates], got,
              '%s: payoff', what)


def optlist(sc, ctx):
    import dcf
    level = 100.
    pts, qs, model, kind, vol, v, m = setup(sc, sc['list'], level)
    fix, pay, kw = offsets(sc)
    dates = [pts[i] for i in (2, 4, 1, 5)]
    x = [shift(d, fix) if fix else d for d in dates]
    x = [shift(d, pay) if pay else d for d in x]
    for idx in MANY:  # many options
        ds = [pts[i] for i in idx]
        xs = [shift(d, fix) if fix else d for d in ds]
        xs = [shift(d, pay) if pay else d for d in xs]
        am = [float(i % 7 - 3) for i in range(len(ds))]
        ks = [1. + i % 5 / 4. for i in range(len(ds))]
        ip = [i % 3 == 0 for i in range(len(ds))]
        real = dcf.OptionCashflowList(ds, am, ks, ip, payoff_model=model,
                                      **kw)
        want = [a * (opt.put if p else opt.call)(
            kind, tau(v, d), k, m(d), vol)
            for d, a, k, p in zip(xs, am, ks, ip)]
        see(ctx, real, ds, want, 100 * 2e-7 * 10, idx)
    for am in ([100., -40., 7., 0.], 3, 2.5):
        for ks in ([1.5, 0.02, 2., 3.25], [2., 1., 3., 8.], 2., 1,
                   [None, 1.5, None, 2.]):
            for ip in (True, False, [True, False, True, False],
                       [False, True, True, False]):
                real = dcf.OptionCashflowList(
                    dates, am, ks, ip, payoff_model=model, **kw)
                aa = am if isinstance(am, list) else [am] * 4
                kk = ks if isinstance(ks, list) else [ks] * 4
                pp = ip if isinstance(ip, list) else [ip] * 4
                want = []
                for d, a, k, p in zip(x, aa, kk, pp):
                    k = m(d) if k is None else k
                    o = opt.put if p else opt.call
                    want.append(a * o(kind, tau(v, d), k, m(d), vol))
                see(ctx, real, dates, want, 100 * 2e-7 * 10, (am, ks, ip))
                ctx.case(str(am), str(ks), str(ip))
    ctx.sample({'flows': want})


def strategy(sc, ctx):
    import dcf
    level = 100.
    pts, qs, model, kind, vol, v, m = setup(sc, sc['strategy'], level)
    fix, pay, kw = offsets(sc)
    dates = [pts[i] for i in (1, 4, 2)]
    x = [shift(d, fix) if fix else d for d in dates]
    x = [shift(d, pay) if pay else d for d in x]
    ks = (1., 2., 2.5, 4.)
    val = {(p, k): [(opt.put if p else opt.call)(kind, tau(v, d), k, m(d),
                                                 vol) for d in x]
           for p in (0, 1) for k in ks}
    keys = sorted(val)
    for n in range(1, sc['n'] + 1):
        for c in itertools.combinations(keys, n):
            for sg in itertools.product((2., -1.), repeat=n):
                for rev in ((0, 1) if n > 1 else (0,)):
                    if rev:
                        c, sg = c[::-1], sg[::-1]
                    ca = [(a, k) for a, (p, k) in zip(sg, c) if not p]
                    pa = [(a, k) for a, (p, k) in zip(sg, c) if p]
                    real = dcf.OptionStrategyCashflowList(
                        dates, [a for a, _ in ca], [k for _, k in ca],
                        [a for a, _ in pa], [k for _, k in pa],
                        payoff_model=model, **kw)
                    want = [sum(a * val[o][i] for a, o in zip(sg, c))
                            for i in range(3)]
                    see(ctx, real, dates, want, 1e-5, (c, sg))
                    ctx.case(str(c), sg)
                    if len(set(sg)) == 1:  # one amount for all
                        real = dcf.OptionStrategyCashflowList(
                            dates, sg[0], [k for _, k in ca], sg[0],
                            [k for _, k in pa], payoff_model=model, **kw)
                        see(ctx, real, dates, want, 1e-5, (c, sg, 'number'))
    # ten options
    k5 = [1., 1.5, 2., 2.5, 3.]
    real = dcf.OptionStrategyCashflowList(
        dates, [1., 2., 3., 4., 5.], k5, [5., -4., 3., -2., 1.], k5,
        payoff_model=model, **kw)
    want = [sum(a * opt.call(kind, tau(v, d), k, m(d), vol) +
                b * opt.put(kind, tau(v, d), k, m(d), vol)
                for a, b, k in zip((1., 2., 3., 4., 5.),
                                   (5., -4., 3., -2., 1.), k5)) for d in x]
    see(ctx, real, dates, want, 1e-4, 'ten options')
    ctx.raises(KeyError, lambda: dcf.OptionStrategyCashflowList(
        dates, 1., k5, 1., k5 + [4.], payoff_model=model), 'eleven options')
    ctx.sample({'strategies': len(ctx.cases)})


def misc(sc, ctx):
    """lists of any payoffs, no model, replaced model"""
    import dcf
    pts, qs = axis(sc['axis'])
    flows = [lambda m: 3.0, lambda m: 0.0 if m is None else m.x, 7.0]
    real = dcf.ContingentCashFlowList(pts[:3], flows)
    ctx.close(list(real[pts[:3]]), [3., 0., 7.], 'without model')

    class M(object):
        x = 5.0
    real.payoff_model = M()
    ctx.close(list(real[pts[:3]]), [3., 5., 7.], 'with model')
    ctx.close(list(real()[pts[:3]]), [3., 5., 7.], 'called')
    ctx.close(real[qs[2]], 0.0, 'no payment')
    # without model options are worth nothing, rates pay the fixed rate
    o = dcf.OptionCashflowList(pts[1:3], 1., 2.)
    ctx.close(list(o[pts[1:3]]), [0., 0.], 'options without model')
    r = dcf.ContingentRateCashFlowList(pts[1:3], 100., origin=pts[0],
                                       fixed_rate=0.02, cap_strike=0.01)
    w = [2. * tau(s, e) for s, e in periods(pts[1:3], pts[0])]
    ctx.close(list(r[pts[1:3]]), w, 'rates without model')
    # models replaced later
    for kind in opt.MODELS:
        for f in (0.02, 0.05):
            v = pts[0]
            m = opt.model(kind, v, f, 0.2)
            r.payoff_model = o.payoff_model = m
            w = []
            for s, e in periods(pts[1:3], pts[0]):
                w.append(100. * tau(s, e) * (0.02 + f - opt.call(
                    kind, tau(v, s), 0.01, f, 0.2)))
            ctx.close(list(r[pts[1:3]]), w, 'replaced model', abs_=1e-4)
            w = [opt.call(kind, tau(v, d), 2., f, 0.2) for d in pts[1:3]]
            ctx.close(list(o[pts[1:3]]), w, 'replaced model', abs_=1e-5)
            ctx.case(kind, f)
    ctx.sample({'flows': w})


def run(sc, ctx):
    for k, f in (('rate', rate), ('list', optlist), ('strategy', strategy),
                 ('misc', misc)):
        if k in sc:
            return f(sc, ctx)
