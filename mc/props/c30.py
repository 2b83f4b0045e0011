"""C30 printed curves, prices and cashflows say what the objects are"""
import datetime
from datetime import timedelta

from ..alpha import MANY, axis, bent
from ..fam import FAM, edits, make, vals

LEVEL = 'exploration'
RULE = ('every curve class x axis x points x interpolation given by name or '
        'scheme x origin x tenor x nested curves, plain and after each edit '
        'of a history: the printed form is evaluated and the resulting curve '
        'compared with the original at all grid and query dates; short form '
        'compared with first and last point, and parameters; same for every '
        'kind of cashflow list and price')
BOUNDS = {'points': '0 to 22, 105', 'edits': 3, 'interpolations': '6 per class'}
ASSUMPTIONS = ['curves without spread and fixings, and without own day count '
               'functions, which have no printed form']
GRIDS = [(), (1,), (0, 3), (3, 1, 2), (5, 1, 3, 0), MANY[1],
         tuple(range(1, 106))]
VARS = 'default', 'name', 'alias', 'func', 'origin', 'tenor', 'count', 'all'
NEST = 'none', 'num', 'rate', 'deep'
TENOR = {'float': 0.75, 'int': 2, 'date': timedelta(200), 'bd': '7M'}


def scenarios(tier):
    for cls in FAM:
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for g in GRIDS:
                for var in VARS:
                    if cls == 'Curve' and var in ('origin', 'tenor', 'all',
                                                     'count'):
                        continue
                    if var == 'tenor' and not FAM[cls][2]:
                        continue
                    for nest in NEST if 'Forward' in cls else ('none',):
                        yield {'cls': cls, 'axis': ax, 'grid': g, 'var': var,
                               'nest': nest}
    for ax in ('float', 'int', 'date', 'bd'):
        for g in GRIDS:
            yield {'flows': 1, 'axis': ax, 'grid': g}
        yield {'price': 1, 'axis': ax}


def space():
    import dcf
    import businessdate
    s = {k: getattr(dcf, k) for k in dir(dcf) if k[:1].isupper()}
    s.update(BusinessDate=businessdate.BusinessDate,
             BusinessPeriod=businessdate.BusinessPeriod, datetime=datetime)
    return s


def read(ctx, x, what):
    s = repr(x)
    ctx.ok(s == repr(x), 'second print of %s differs', what)
    try:
        return eval(s, space())
    except Exception as e:
        ctx.ok(False, '%s does not evaluate: %r, %s', what, e, s[:300])


def run(sc, ctx):
    if 'flows' in sc:
        return flows(sc, ctx)
    if 'price' in sc:
        return prices(sc, ctx)
    import dcf
    import dcf.interpolation as ip
    cls, ax, var = sc['cls'], sc['axis'], sc['var']
    pts, qs = axis(ax, many=100 if len(sc['grid']) > 7 else 0)
    grid = [pts[i] for i in sc['grid']]
    data, _ = vals(cls, len(grid), len(grid) % 100)
    if sc['axis'] == 'float' or len(grid) > 2:
        data = [x / 3.7 for x in data]  # all digits count
    pos = FAM[cls][1] != 'rate'
    kw = {}
    if var in ('name', 'all'):
        kw['interpolation'] = 'loglinear' if pos else 'linear'
    if var == 'alias':
        kw['interpolation'] = 'constant_loglinear_constant' if pos else \
            'zero_linear_scheme'
    if var == 'func':
        kw['interpolation'] = ip.log_linear_scheme if pos else ip.nearest
    if var in ('origin', 'all'):
        kw['origin'] = pts[0]
    if var in ('tenor', 'all') and FAM[cls][2]:
        kw['forward_tenor'] = TENOR[ax]
    if var in ('count', 'all') and cls != 'Curve':
        dcf.DateCurve.DAY_COUNT['bent'] = bent
        kw['day_count'] = 'bent'
    if sc['nest'] == 'num' and cls == 'ForwardCurve':
        kw['yield_curve'] = 0.0625
    one = dcf.ZeroRateCurve([pts[0], pts[4]], [0.03, 0.05], origin=pts[0])
    two = dcf.ZeroRateCurve([pts[1]], [-0.01], 'constant')
    if sc['nest'] == 'rate' and cls == 'ForwardCurve':
        kw['yield_curve'] = one
    if sc['nest'] == 'deep' and cls == 'ForwardCurve':
        kw['yield_curve'] = dcf.DiscountFactorCurve(
            [pts[0], pts[4]], [1., .75], forward_tenor=TENOR[ax])
    if cls == 'FxForwardCurve':
        if sc['nest'] in ('num', 'none') and grid:
            return
        if grid:
            kw = {k: v for k, v in kw.items() if k != 'yield_curve'}
            kw.update(domestic_curve=one, foreign_curve=two)
    if len(grid) == 1 and FAM[cls][0] == 'log_linear_rate_scheme' and \
            'interpolation' not in kw and 'origin' not in kw:
        return  # no rate at all
    c = make(cls, grid, data, **kw)
    if not grid:
        e = read(ctx, c, 'empty')
        ctx.ok(type(e) is type(c) and len(e.domain) == 0, 'empty curve')
        ctx.ok(cls in str(c), 'name of empty curve')
        return
    check(ctx, c, kw, pts, qs, 'new')
    for d, x in zip((grid[-1], pts[2], pts[0]), edits(cls) * 2):
        if cls not in ('ForwardCurve', 'FxForwardCurve') or len(grid) > 1:
            c[d] = x
            ctx.trans()
            check(ctx, c, kw, pts, qs, 'edited')
    ctx.sample({'print': str(c)[:200]})


def observe(c, ts):
    v = []
    for t in ts:
        try:
            y = c(t)
        except (OverflowError, ZeroDivisionError, IndexError, ValueError):
            y = None
        v.append(None if y is None or abs(y) > 1e100 else y)
    return v


def check(ctx, c, kw, pts, qs, what):
    cls = type(c).__name__
    grid = list(c.domain)
    ts = list(dict.fromkeys(grid[:6] + grid[-2:] + pts[:7:2] + qs[::2]))
    have = observe(c, ts)
    d = read(ctx, c, what)
    same(ctx, c, d, ts, have, what)
    same(ctx, c, read(ctx, d, 'print of it'), ts, have, 'twice ' + what)
    s = str(c)
    ctx.ok(s == str(c), 'second str')
    parts = [cls] + [repr(x) for x in (
        grid[0], grid[-1], c(grid[0]), c(grid[-1]))]
    for k, v in kw.items():
        if isinstance(v, (int, float, str)) and k != 'forward_tenor':
            parts.append(repr(v))
        parts.append(k)
    for p in parts:
        ctx.ok(p in s, '%s: no %s in %s', what, p, s)
    # printing changes nothing
    got = observe(c, ts)
    ctx.ok(got == have and list(c.domain) == grid, '%s: changed by print',
           what)
    ctx.case(what)


def same(ctx, c, d, ts, have, what):
    ctx.ok(type(d) is type(c), '%s: type %s', what, type(d))
    ctx.ok(list(d.domain) == list(c.domain), '%s: dates %s', what, d.domain)
    ctx.ok(set(d.kwargs) == set(c.kwargs), '%s: kwargs %s', what, d.kwargs)
    for k in ('origin', 'forward_tenor'):
        if hasattr(c, k):
            ctx.ok(getattr(d, k) == getattr(c, k), '%s: %s', what, k)
    for t, x, y in zip(ts, observe(d, ts), have):
        ctx.ok((x is None) == (y is None), '%s: at %s: %s, %s', what, t, x, y)
        if y is not None:
            ctx.close(x, y, '%s: value at %s', what, t, abs_=1e-15,
                      rel=2e-14 if t in c else 1e-12)


def flows(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=100 if len(sc['grid']) > 7 else 0)
    dates = [pts[i] for i in sc['grid']]
    n = len(dates)
    am = ([100., -40., 0.125, 0.0, 1e-9, 1 / 3.] * 20)[:n]
    for o in (None, pts[0]):
        kw = {} if o is None else {'origin': o}
        rate = dcf.RateCashFlowList(dates, am, fixed_rate=.25,
                                    forward_curve=2., **kw) \
            if n > 1 or o is not None else None
        lists = [dcf.CashFlowList(dates, am, **kw),
                 dcf.CashFlowList(dates, 7.25, **kw),
                 dcf.FixedCashFlowList(dates, am, **kw),
                 dcf.FixedCashFlowList(dates, 3.5, **kw),
                 dcf.CashFlowList(dates, am, **kw)()]
        if rate is not None and n:
            m = dcf.CashFlowLegList([rate, lists[0]])
            lists += [dcf.FixedCashFlowList(rate), rate(), m()]
        for x in lists:
            if not n:
                ctx.ok(type(x).__name__ in repr(x) + str(x), 'empty list')
                continue
            y = read(ctx, x, 'list')
            ctx.ok(type(y) is type(x), 'type of list %s', type(y))
            ctx.ok(list(y.domain) == list(x.domain), 'dates of list')
            ctx.close(list(y[list(y.domain)]), list(x[list(x.domain)]),
                      'flows of list', rel=1e-14, abs_=1e-18)
            ctx.ok(y.origin == x.origin, 'origin of list %s, %s', y.origin,
                   x.origin)
            s = str(x)
            ctx.ok(type(x).__name__ in s, 'name in %s', s)
            if n:
                for d in (x.domain[0], x.domain[-1]):
                    ctx.ok(repr(d) in s, 'no %s in %s', d, s)
                    ctx.ok(repr(x[d]) in s, 'no flow of %s in %s', d, s)
                    if o is not None:
                        ctx.ok(repr(o) in s, 'no origin in %s', s)
            ctx.case('list')
        for a in am:
            for p in (dcf.FixedCashFlowPayOff(a),
                      dcf.OptionCashFlowPayOff(pts[1], a, 2.),
                      dcf.RateCashFlowPayOff(pts[0], pts[1], a)):
                ctx.ok(repr(a) == repr(p), 'payoff %r', p)
    ctx.sample({'dates': n})


def prices(sc, ctx):
    import dcf
    pts, qs = axis(sc['axis'])
    for cls in (dcf.Price, dcf.FxRate):
        for v in (0., 1.25, -2.5, 100, 1 / 3., 123456.789, 1e-6):
            for o in pts[:3]:
                p = cls(v, o)
                for s in (str(p), repr(p)):
                    ctx.ok(cls.__name__ in s and repr(o) in s and
                           '%f' % v in s, 'price %s', s)
                ctx.close(float(p), float(v), 'float of price')
                ctx.close(p.value, float(v), 'value of price')
                ctx.ok(p.origin == o, 'date of price')
                ctx.case('price')
    ctx.sample({'prices': 7})
