"""C06 discount factors, zero, short and cash rates of interest rate curves"""
from datetime import timedelta

from businessdate import BusinessDate

from ..alpha import MANY, axis, bent, twin
from ..fam import FAM, make, vals
from ..rates import DAY, RRate
from ..ref import RCurve, exp

LEVEL = 'exploration'
RULE = ('every curve type x axis x grid x origin x day count x interpolation '
        'x spread of the lists below, evaluated at every ordered pair of '
        'grid, between, before and after dates (equal but not identical '
        'objects); discount factor, zero, short and cash rate, swap annuity '
        'compared with an independent model; product rule on all triples')
BOUNDS = {'grids': '1 to 5 of 7 dates, some with 15 to 21 dates',
          'pairs': 'all ordered pairs of about '
          '10 dates', 'short rate curves': 'dates within 8 months, some with '
          'dates within 31 years'}
ASSUMPTIONS = ['cash and short rate curves only for start <= stop',
               'short rate curves only with BusinessDate (documented step '
               'of one day)', 'rates of moderate size']
GRIDS = [(1,), (0, 3), (1, 2, 4), (0, 1, 3, 5), (1, 2, 3, 4, 6)]
UNSORTED = [(3, 1), (4, 0, 2), (5, 1, 3, 0)]
TENOR = {'float': 0.25, 'int': 1, 'date': timedelta(91), 'bd': '3M'}
CLS = 'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve', 'ShortRateCurve'
ORIGINS = 'first', 'before', 'mid', 'zero'
ALTS = {'ZeroRateCurve': ('linear', 'constant', 'right'),
        'CashRateCurve': ('constant', 'right', 'linear'),
        'ShortRateCurve': ('linear_scheme', 'right', 'linear'),
        'DiscountFactorCurve': ('log_linear_scheme', 'linear_scheme',
                                'loglinearrate')}
SHORT = [BusinessDate(*d) for d in ((2023, 12, 15), (2024, 1, 1),
                                    (2024, 2, 29), (2024, 3, 1),
                                    (2024, 4, 30), (2024, 5, 5),
                                    (2024, 6, 30))]
SHORTQ = [BusinessDate(*d) for d in ((2023, 12, 20), (2024, 1, 2),
                                     (2024, 2, 28), (2024, 3, 15),
                                     (2024, 7, 7))]
LONG = [BusinessDate(*d) for d in ((2020, 1, 31), (2021, 3, 1),
                                   (2023, 2, 3), (2027, 2, 18),
                                   (2035, 1, 31), (2040, 2, 29),
                                   (2061, 12, 31))]
LONGQ = [BusinessDate(*d) for d in ((2019, 12, 20), (2026, 10, 3),
                                    (2033, 6, 6), (2042, 3, 15),
                                    (2051, 7, 7))]


def far(daily):
    """long periods"""
    for g in ((3,), (0, 1, 3), (3, 1, 4)):
        for o in ('first', 'before'):
            for var in ('plain', 'dc', 'spread'):
                if daily and (len(g) == 1 or o == 'before' or var == 'dc'):
                    continue
                yield {'axis': 'bd', 'grid': g, 'origin': o, 'var': var,
                       'key': 1, 'far': 1}


def many(classes, variants):
    """grids of many points"""
    for cls in classes:
        for ax in ('float', 'int', 'date', 'bd'):
            for g in MANY:
                for o in ('first', 'before', 'mid', 'zero'):
                    if o == 'zero' and ax not in ('float', 'int'):
                        continue
                    for var in variants:
                        yield {'cls': cls, 'axis': ax, 'grid': g, 'many': 24,
                               'origin': o, 'var': var, 'key': 0}


def far_dates(sc, pts, qs):
    return (LONG, LONGQ) if sc.get('far') else (pts, qs)


def scenarios(tier):
    for cls in CLS:
        for sc in far(cls == 'ShortRateCurve' and tier == 'quick'):
            yield dict(sc, cls=cls)
    for sc in many(CLS[:3], ('plain', 'ip0', 'spread')):
        yield sc
    for cls in CLS:  # extreme rates
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'ShortRateCurve' and ax != 'bd':
                continue
            for g in GRIDS + UNSORTED:
                for o in ORIGINS[:3]:
                    for var in ('plain', 'huge', 'dc'):
                        if cls == 'ShortRateCurve' and (
                                len(g) != 3 or o == 'mid') or \
                                var == 'huge' and cls == CLS[1]:
                            continue
                        for k in (0, 3) if cls == 'ShortRateCurve' else (0,):
                            yield {'cls': cls, 'axis': ax, 'grid': g,
                                   'origin': o, 'var': var,
                                   'key': 100 + len(g) + k}
    keys = (0, 1, 2) if tier == 'quick' else range(9)
    for cls in CLS:
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'ShortRateCurve' and ax != 'bd':
                continue
            for g in GRIDS + UNSORTED:
                for o in ORIGINS:
                    if o == 'zero' and ax not in ('float', 'int'):
                        continue
                    for var in ('plain', 'dc', 'ip0', 'ip1', 'ip2', 'spread',
                                'tenor', 'fix'):
                        if cls == 'ShortRateCurve' and tier == 'quick' and (
                                g not in ((1,), (3, 1), (1, 2, 4)) or
                                o == 'mid' or var in ('ip2', 'tenor')):
                            continue
                        for key in keys[:1] if var != 'plain' or \
                                cls == 'ShortRateCurve' else keys:
                            yield {'cls': cls, 'axis': ax, 'grid': g,
                                   'origin': o, 'var': var, 'key': key}


def setup(sc):
    """-> (real curve, model, grid, queries)"""
    import dcf
    cls, ax, var = sc['cls'], sc['axis'], sc['var']
    pts, qs = axis(ax, 2.0 if sc['origin'] == 'zero' else 0.0,
                   sc.get('many', 0))
    if cls in ('ShortRateCurve', 'HazardRateCurve'):
        pts, qs = SHORT, SHORTQ
    pts, qs = far_dates(sc, pts, qs)
    grid = [pts[i] for i in sc['grid']]
    data, meant = vals(cls, len(grid), sc['key'])
    kw, mk = {}, {}
    if sc['origin'] == 'first':
        origin = grid[0]
    elif sc['origin'] == 'before':
        origin = kw['origin'] = pts[0]
    elif sc['origin'] == 'mid':
        origin = kw['origin'] = twin(pts[2])
    else:
        origin = 0.0 if ax == 'float' else 0
        kw['origin'] = origin
    if var == 'dc':
        kw['day_count'] = mk['dc'] = bent
    if var.startswith('ip'):
        kw['interpolation'] = mk['kind'] = ALTS[cls][int(var[2])]
    tenor = TENOR[ax]
    if var == 'tenor':
        tenor = {'float': 0.75, 'int': 2, 'date': timedelta(200),
                 'bd': '7M'}[ax]
    if ax != 'bd' or var == 'tenor':
        kw['forward_tenor'] = tenor
    real = make(cls, grid, data, **kw)
    model = RRate(cls, zip(grid, meant), origin, tenor=tenor, **mk)
    if var in ('spread', 'huge'):
        v = [0.001, 0.004] if var == 'spread' else [0.4, -0.3]
        real.spread = dcf.DateCurve([pts[1], pts[4]], v)
        model = model.with_(spread=RCurve(zip([pts[1], pts[4]], v),
                                          'linear_scheme', pts[1]))
    if var == 'fix':
        v = meant[0] + 0.25 if FAM[cls][1] == 'rate' else 0.5
        real.fixings[pts[3]] = v
        model = model.with_(fix={pts[3]: v})
    return real, model, grid, pts, qs


def fine(x):
    return abs(x) < 200


def run(sc, ctx):
    cls, ax = sc['cls'], sc['axis']
    if cls == 'DiscountFactorCurve':
        g = [i for i in sc['grid']]
        if len(g) == 1 and sc['origin'] == 'first':
            return  # no rate at all
    c, m, grid, pts, qs = setup(sc)
    o = m.origin
    dates = sorted(set(grid + [o] + pts[2:6:3] + qs[1:9:2]))
    if sc.get('far'):
        dates = sorted(set(grid + [o] + qs[1:4]))
    if cls == 'ShortRateCurve':
        dates = sorted(set(grid + [o] + qs[1:4]))
    ordered = cls in ('CashRateCurve', 'ShortRateCurve')
    # value at the origin is up to the user
    own = cls == 'DiscountFactorCurve' and abs(m(o) - 1.0) > 1e-12
    ctx.ok(c.origin == o, 'origin %s', c.origin)
    log = {}
    for s in dates:
        for t in dates:
            if ordered and t < s:
                continue
            x = m.lograte(s, t)
            if fine(x):
                log[s, t] = x
    df = {}
    for (s, t), x in log.items():
        a, b = twin(s), twin(t)
        ctx.case(s, t, x)
        if s == t:
            if own and s == o:
                continue
            ctx.close(c.get_discount_factor(a, b), 1.0, 'df(%s,%s)', s, t)
            continue
        df[s, t] = c.get_discount_factor(a, b)
        ctx.close(df[s, t], exp(-x), 'df(%s,%s)', s, t)
        z = c.get_zero_rate(a, b)
        y = m.dc(s, t)
        ctx.close(z, x / y, 'zero rate(%s,%s)', s, t, rel=1e-8, abs_=1e-11)
        if fine(z * y):
            ctx.close(exp(-z * y), df[s, t], 'exp(-zero rate) (%s,%s)', s, t)
        if s < t:
            w = (exp(x) - 1.) / y
            ctx.close(c.get_cash_rate(a, b), w, 'cash rate(%s,%s)', s, t,
                      rel=1e-8, abs_=1e-11)
    for s, t in df:
        if s == o:
            ctx.close(c.get_discount_factor(twin(t)), df[s, t],
                      'df(%s) from origin', t)
            ctx.close(c.get_zero_rate(twin(t)), c.get_zero_rate(s, t),
                      'zero rate(%s) from origin', t)
        if not ordered and (t, s) in df and not (own and o in (s, t)):
            ctx.close(df[s, t] * df[t, s], 1.0, 'df(%s,%s) * df(%s,%s)', s,
                      t, t, s)
        if not ordered or cls == 'ShortRateCurve':
            for u in dates:
                if (s, u) in df and (u, t) in df and not (own and u == o):
                    ctx.close(df[s, u] * df[u, t], df[s, t],
                              'df(%s,%s) = df(.,%s) * df(%s,.)', s, t, u, u)
    # tenor rates
    ten = m.tenor
    for s in dates:
        for step in (None, ten, {'float': 1.5, 'int': 3, 'bd': '5M',
                                 'date': timedelta(150)}[ax]):
            e = s + (ten if step is None else step)
            x = m.lograte(s, e)
            if not fine(x):
                continue
            r = c.get_cash_rate(twin(s)) if step is None else \
                c.get_cash_rate(twin(s), step=step)
            w = m.stored(s, 'CashRateCurve', ten) if e == s + ten \
                else m.cash(s, e)
            ctx.close(r, w, 'cash rate(%s, step=%s)', s, step, rel=1e-8,
                      abs_=1e-11)
            ctx.close(c.get_cash_rate(s, e), r, 'cash rate by stop')
            if step is not None:
                ctx.close(c.get_cash_rate(s, e, step), r, 'by stop and step')
    # instantaneous rates
    if cls != 'ShortRateCurve' or len(grid) > 1:
        g = sorted(grid)
        for s in dates:
            if ordered and s < o and len(g) == 1 or \
                    ordered and len(g) == 1 and g[0] < o:
                continue
            if len(g) == 1 and g[0] == o and (
                    cls == 'DiscountFactorCurve' or ax != 'bd'):
                continue
            if len(g) == 1 and g[0] == o:
                w = m.instant()
            else:
                w = m.short(s)
            ctx.close(c.get_short_rate(twin(s)), w, 'short rate(%s)', s,
                      rel=1e-8, abs_=1e-11)
    if cls != 'DiscountFactorCurve' or any(o < d for d in grid):
        ctx.close(c.get_zero_rate(o, twin(o)), m.instant(),
                  'zero rate at origin', rel=1e-8, abs_=1e-11)
    # rate for no time: the rate over the next day
    if ax == 'bd':
        for s in dates:
            if s == o or ordered and s < o:
                continue
            if cls in ('ZeroRateCurve', 'DiscountFactorCurve'):
                w = m.zero(s, s + DAY)
            else:
                w = m(s)
            ctx.close(c.get_zero_rate(s, twin(s)), w, 'zero rate(%s) for no '
                      'time', s, rel=1e-7, abs_=1e-9)
    # annuity
    fwd = [d for d in dates if o <= d and (o, d) in log]
    for sch in (fwd, fwd[1:], fwd[::2], fwd[:2], fwd[:1]):
        w = sum(exp(-log[o, e]) * m.dc(s, e) for s, e in zip(sch, sch[1:])
                ) if not (own and o in sch[1:]) else None
        ctx.close(c.get_swap_annuity(list(sch)), w, 'annuity %s', sch)
        ctx.close(c.get_swap_annuity(tuple(sch)), w, 'annuity %s', sch)
    ctx.sample({'s': str(dates[0]), 't': str(dates[-1])})
