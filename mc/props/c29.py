"""C29 tables and details of cashflows explain them"""
import itertools

from .. import opt
from ..alpha import MANY, act360, axis, bent
from ..flows import OFF, TENOR, periods, shift
from ..rates import RRate
from ..ref import RCurve, tau

LEVEL = 'exploration'
RULE = ('every kind of cashflow list (fixed, rate, caps, floors, collars, '
        'options, strategies, plain payoffs, legs) x option model x forward '
        'x volatility (number, function, curves) x day count x offsets x '
        'valuation date: each row of the table, and the details of each '
        'payoff, are compared with the terms of the list and the state of '
        'the curves, and the cashflow is recalculated from nothing but the '
        'entries of its row by independent formulas')
BOUNDS = {'payment dates': '5 sets of 1 to 21 dates', 'strikes': 6,
          'options per strategy': '1 to 10'}
ASSUMPTIONS = ['accuracy 1e-7 of the normal distribution function',
               'distinct payment dates']
SETS = (1, 2, 4), (5,), (4, 1, 3), (2, 3, 4, 5, 6), MANY[0]
FWD = 'curve', 'number', 'lambda', 'zero', 'price', 'gap', 'minus'
VOL = 'number', 'curve', 'lambda', 'terminal', 'none'
OFFS = 'none', 'fix', 'pay', 'both'


def scenarios(tier):
    n = 0
    for ax in ('float', 'int', 'date', 'bd'):
        for kind in ('rate', 'option', 'strategy'):
            for fwd in FWD:
                for off in OFFS:
                    for idx in SETS:
                        yield {'kind': kind, 'axis': ax, 'fwd': fwd,
                               'off': off, 'set': idx}
                        for mod in opt.MODELS:
                            for vol in VOL:
                                if fwd in ('gap', 'minus') and \
                                        mod == 'lognormal':
                                    continue
                                n += 1
                                if tier == 'quick' and n % 3:
                                    continue
                                yield {'kind': kind, 'axis': ax, 'fwd': fwd,
                                       'off': off, 'set': idx, 'model': mod,
                                       'vol': vol, 'n': n}
        for idx in SETS:
            yield {'kind': 'other', 'axis': ax, 'set': idx}


def forward(name, ax, pts):
    """-> argument, model, tenor, day count or None"""
    import dcf
    g, z = [pts[1], pts[3], pts[5]], [2., 3.5, 1.]
    if name == 'gap':  # forwards of exactly zero
        g, z = [pts[0], pts[1], pts[3], pts[4]], [2., 0., 0., 1.]
    m = RCurve(zip(g, z), 'linear_scheme', g[0])
    if name == 'number':
        return 2.5, lambda d: 2.5, None
    if name == 'lambda':
        return (lambda d: m(d)), m, None
    if name in ('curve', 'gap'):
        return dcf.DateCurve(g, z), m, None
    if name == 'price':
        return dcf.ForwardCurve(g, z), RCurve(
            zip(g, z), 'log_linear_scheme', pts[1]), None
    ten = TENOR[ax]
    r = [0.125, 0.25, 0.375]
    if name == 'minus':
        r = [-.25, 0.125, -.0625]
    m = RRate('ZeroRateCurve', zip(g, r), pts[0], tenor=ten)
    return dcf.ZeroRateCurve(g, r, origin=pts[0], forward_tenor=ten), \
        (lambda d: m.cash(d, d + ten)), ten


def volatility(name, kind, pts):
    import dcf
    x = .2 if kind in ('lognormal', 'displaced') else .5
    g, z = [pts[0], pts[6]], [x, x * 2]
    m = RCurve(zip(g, z), 'linear_scheme', pts[0])
    if name == 'none':
        return None, lambda d: 0.0
    if name == 'number':
        return x, lambda d: x
    if name == 'lambda':
        return (lambda d: m(d)), m
    if name == 'curve':
        return dcf.DateCurve(g, z, day_count=act360), RCurve(
            zip(g, z), 'linear_scheme', pts[0], act360)
    return dcf.TerminalVolatilityCurve(g, z, day_count=bent), RCurve(
        zip(g, z), 'linear_scheme', pts[0], bent)


def table(ctx, x):
    t = x.table
    ctx.ok(isinstance(t, list) and all(isinstance(r, tuple) for r in t),
           'type of table')
    ctx.ok(len(set(t[0])) == len(t[0]), 'columns %s', t[0])
    ctx.ok(len(t) == len(x.domain) + 1, 'rows of table')
    ctx.ok(all(len(r) == len(t[0]) for r in t), 'cells of table')
    return [dict(zip(t[0], r)) for r in t[1:]]


def run(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=24 if len(sc['set']) > 7 else 0)
    if sc['kind'] == 'other':
        return other(sc, ctx, pts)
    dates = [pts[i] for i in sc['set']]
    n = len(dates)
    fwd, m, ten = forward(sc['fwd'], ax, pts)
    fix = OFF[ax] if sc['off'] in ('fix', 'both') else None
    pay = OFF[ax] if sc['off'] in ('pay', 'both') else None
    kw = {}
    if fix:
        kw['fixing_offset'] = fix
    if pay:
        kw['pay_offset'] = pay
    am = ([100., -40., 7., 1.] * 6)[:n]
    cases = [(None, None)]
    if 'model' in sc:
        kind = sc['model']
        vol, mv = volatility(sc['vol'], kind, pts)
        cases = [(v, d) for v in (pts[0], pts[2]) for d in (None, act360)]
        cases = cases[sc['n'] % 2::2]
    for v, d in cases:
        model = dc = None
        if v is not None:
            model = opt.model(kind, v, fwd, vol, d)
            dc = d or {'curve': act360, 'terminal': bent}.get(sc['vol'], tau)
        args = dict(ctx=ctx, dates=dates, am=am, fix=fix, pay=pay, kw=kw, m=m,
                    ten=ten, model=model, v=v, dc=dc)
        if model is not None:
            args.update(kind=kind, vol=mv, novol=vol is None)
        if sc['kind'] == 'rate':
            rate(pts=pts, fwd=fwd, **args)
        elif sc['kind'] == 'option':
            options(**args)
        else:
            strategies(**args)
        ctx.case(str(v), str(d))
    ctx.sample({'dates': str(dates[:3]), 'model': str(sc.get('model'))})


def rate(ctx, dates, am, fix, pay, kw, m, ten, model, v, dc, pts, fwd,
         kind=None, vol=None, novol=None):
    import dcf
    per = periods(dates, pts[0])
    if pay:
        per = [(shift(s, pay), shift(e, pay)) for s, e in per]
    fx = [shift(s, fix) if fix else s for s, _ in per]
    strikes = (None, 1.5, 2.5)
    for flo, cap in itertools.product(strikes, strikes):
        if model is None and (flo or cap):
            continue
        k2 = dict(kw, origin=pts[0], day_count=bent, fixed_rate=0.25)
        if model is None:
            lists = [dcf.RateCashFlowList(dates, am, forward_curve=fwd, **k2),
                     dcf.RateCashFlowList(dates, am, **k2),
                     dcf.ContingentRateCashFlowList(
                         dates, am, floor_strike=1.5, cap_strike=2.5, **k2)]
        else:
            lists = [dcf.ContingentRateCashFlowList(
                dates, am, floor_strike=flo, cap_strike=cap,
                payoff_model=model, **k2)]
        for j, real in enumerate(lists):
            rows = table(ctx, real)
            for r, d, a, (s, e), f in zip(rows, dates, am, per, fx):
                ctx.ok(r['pay date'] == d, 'pay date of %s', r)
                ctx.close(r['notional'], a, 'notional')
                ctx.ok(r['start date'] == s and r['end date'] == e,
                       'period of %s: %s', d, r)
                ctx.close(r['year fraction'], bent(s, e), 'year fraction')
                ctx.close(r['fixed rate'], .25, 'fixed rate')
                if j:
                    ctx.ok('forward rate' not in r, 'no forward rate: %s', r)
                else:
                    ctx.close(r['forward rate'], m(f), 'forward of %s', d)
                    ctx.ok(r['fixing date'] == f, 'fixing date %s', r)
                    ctx.ok(r['tenor'] == ten, 'tenor %s', r)
                y = r['fixed rate'] + r.get('forward rate', 0.)
                w = r['notional'] * r['year fraction'] * y
                for k, x, o in ((flo, 'floorlet', opt.put),
                                (cap, 'caplet', opt.call)):
                    ctx.ok((x in r) == (k is not None and model is not None),
                           '%s of %s', x, r)
                    if x not in r:
                        continue
                    ctx.close(r[x + ' strike'], k, 'strike')
                    t = dc(v, f)
                    ctx.close(r['time to expiry'], t, 'time to expiry of %s',
                              d)
                    ctx.ok(r['valuation date'] == v, 'valuation date %s', r)
                    if not novol:
                        ctx.close(r[x + ' volatility'], vol(f),
                                  'volatility of %s', d)
                    z = r['notional'] * r['year fraction'] * o(
                        kind, r['time to expiry'], r[x + ' strike'],
                        r['forward rate'], r[x + ' volatility'] or 0.)
                    tol = 2e-6 * abs(r['notional'] * r['year fraction'])
                    ctx.close(r[x], z, '%s of %s', x, d, abs_=tol)
                    w += r[x] if x == 'floorlet' else -r[x]
                ctx.close(r['cashflow'], w, 'cashflow of row %s', d,
                          rel=1e-10)
                ctx.close(r['cashflow'], real[d], 'cashflow of %s', d)
                details(ctx, real, d, r, model if model is not None else
                        fwd if not j else None)
                if not j and model is None:
                    # forward curve given by model or by list with a model
                    w = opt.model('normal', pts[0], fwd, None, None)
                    for x in (w, dcf.ContingentCashFlowList(
                            dates, [0.] * len(dates), payoff_model=w), real):
                        details(ctx, real, d, r, x)


def details(ctx, real, d, row, arg):
    p = real.payoff(d)
    x = p.details(arg)
    for k, v in row.items():
        if k == 'pay date':
            continue
        ctx.ok(k in x, 'no %s in details', k)
        if isinstance(v, float):
            ctx.close(x[k], v, '%s of details of %s', k, d)
        else:
            ctx.ok(x[k] == v, '%s of details of %s: %s, %s', k, d, x[k], v)
    ctx.close(p(arg), x['cashflow'], 'payoff of %s', d)
    if 'pay/rec' in x:
        ctx.ok(x['pay/rec'] == ('pay' if x['notional'] > 0 else 'rec'),
               'pay/rec of %s', x)


def options(ctx, dates, am, fix, pay, kw, m, ten, model, v, dc, kind=None,
            vol=None, novol=None):
    import dcf
    n = len(dates)
    x = [shift(d, fix) if fix else d for d in dates]
    x = [shift(d, pay) if pay else d for d in x]
    for j, ks in enumerate((([1.5, 2., 3.25, 2.5] * 6)[:n],
                            [None if i % 2 else 2. for i in range(n)], 2.5)):
        ip = [(i + j) % 3 == 0 for i in range(n)]
        real = dcf.OptionCashflowList(dates, am, ks, ip, payoff_model=model,
                                      **kw)
        for i, r in enumerate(table(ctx, real)):
            d, e = dates[i], x[i]
            k = ks[i] if isinstance(ks, list) else ks
            ctx.ok(r['pay date'] == d and r['expiry date'] == e,
                   'dates of row %s', r)
            ctx.ok(r['put/call'] == ('put' if ip[i] else 'call') and
                   r['long/short'] == ('long' if am[i] > 0 else 'short'),
                   'kind of row %s', r)
            ctx.close(r['notional'], am[i], 'notional')
            if model is None:
                ctx.ok(r['cashflow'] == 0., 'no model, no value')
                ctx.ok(r['strike'] == k, 'strike')
            else:
                ctx.close(r['strike'], m(e) if k is None else k, 'strike')
                w = r['notional'] * recalc(ctx, r, r['strike'], r['put/call'],
                                           e, m, v, dc, kind, vol, novol)
                ctx.close(r['cashflow'], w, 'cashflow of row %s', d,
                          abs_=2e-6 * abs(r['notional']))
            ctx.close(r['cashflow'], real[d], 'cashflow of %s', d)
            details(ctx, real, d, r, model)


def recalc(ctx, r, k, pc, e, m, v, dc, kind, vol, novol):
    ctx.ok(r['fixing date'] == e, 'fixing date of %s', r)
    ctx.ok(r['valuation date'] == v, 'valuation date of %s', r)
    ctx.close(r['forward'], m(e), 'forward at %s', e)
    ctx.close(r['time to expiry'], dc(v, e), 'time to %s', e)
    if not novol:
        ctx.close(r['volatility'], vol(e), 'volatility at %s', e)
    return (opt.put if pc == 'put' else opt.call)(
        kind, r['time to expiry'], k, r['forward'], r.get('volatility', 0.))


def strategies(ctx, dates, am, fix, pay, kw, m, ten, model, v, dc, kind=None,
               vol=None, novol=None):
    import dcf
    x = [shift(d, fix) if fix else d for d in dates]
    x = [shift(d, pay) if pay else d for d in x]
    for ck, pk in (((2.,), ()), ((3., 1.5), (2.5,)), ((), (1., 3.)),
                   ((1., 3., 2., 1.5, 2.5), (2.5, 1., 3.5, 2., 4.)),
                   ((2.,), (2.,))):
        ca = [2. - i for i in range(len(ck))]
        pa = [-1.5 + i for i in range(len(pk))]
        real = dcf.OptionStrategyCashflowList(
            dates, ca, list(ck), pa, list(pk), payoff_model=model, **kw)
        want = sorted([(k, 'put', a) for a, k in zip(pa, pk)] +
                      [(k, 'call', a) for a, k in zip(ca, ck)])
        for i, r in enumerate(table(ctx, real)):
            d, e = dates[i], x[i]
            ctx.ok(r['pay date'] == d, 'pay date of %s', r)
            have, w, tol = [], 0., 0.
            for j in range(len(want)):
                o = [r['#%d %s' % (j, k)] for k in (
                    'strike', 'put/call', 'notional')]
                ctx.ok(r['#%d long/short' % j] == (
                    'long' if o[2] > 0 else 'short'), 'kind of row %s', r)
                have.append(tuple(o))
                if model is not None:
                    w += o[2] * recalc(ctx, r, o[0], o[1], e, m, v, dc, kind,
                                       vol, novol)
                    tol += 2e-6 * abs(o[2])
            ctx.ok('#%d strike' % len(want) not in r, 'surplus options')
            ctx.ok(sorted(have) == want, 'options of %s: %s', r, want)
            ctx.ok([k for k, _, _ in have] == sorted(k for k, _, _ in have),
                   'order of strikes in %s', r)
            ctx.close(r['cashflow'], w, 'cashflow of row %s', d, abs_=tol)
            ctx.close(r['cashflow'], real[d], 'cashflow of %s', d)
            details(ctx, real, d, r, model)


def other(sc, ctx, pts):
    """lists of amounts or any payoffs, legs of these"""
    import dcf
    dates = [pts[i] for i in sc['set']]
    n = len(dates)
    am = ([100., -40., 0., 1.] * 6)[:n]
    rates = dcf.RateCashFlowList(dates, am, origin=pts[0], fixed_rate=.25,
                                 forward_curve=2.)
    free = dcf.ContingentCashFlowList(
        dates, [lambda x, a=a: a + (x or 0.) for a in am], payoff_model=7.)
    mixed = dcf.CashFlowList(dates, [a if i % 2 else dcf.FixedCashFlowPayOff(
        a) for i, a in enumerate(am)])
    w = [a * 2.25 * tau(s, e) for a, (s, e) in zip(am, periods(
        dates, pts[0]))]
    lists = [(dcf.CashFlowList(dates, am), am),
             (dcf.FixedCashFlowList(dates, am), am), (mixed, am),
             (free, [a + 7. for a in am]), (rates, w),
             (rates(), w), (dcf.FixedCashFlowList(rates), w)]
    for x, want in lists:
        rows = table(ctx, x)
        ctx.ok([r['pay date'] for r in rows] == dates, 'pay dates')
        ctx.close([r['cashflow'] for r in rows], want, 'cashflows')
    for (x, a), (y, b) in itertools.product(lists, repeat=2):
        legs = dcf.CashFlowLegList([x, dcf.CashFlowLegList([y, x])])
        rows = table(ctx, legs)
        ctx.ok([r['pay date'] for r in rows] == sorted(dates), 'pay dates')
        z = {d: 2. * p + q for d, p, q in zip(dates, a, b)}
        ctx.close([r['cashflow'] for r in rows], [z[d] for d in sorted(dates)],
                  'cashflows of legs')
        ctx.case('legs')
    for cls in (dcf.CashFlowList, dcf.FixedCashFlowList,
                dcf.RateCashFlowList):
        ctx.ok(cls([], []).table == [()], 'empty table')
    ctx.sample({'dates': n})
