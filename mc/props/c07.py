"""C07 survival probabilities, flat intensities and hazard rates"""
from datetime import timedelta

from ..alpha import bent, axis, dfs, twin
from ..fam import FAM, make, vals
from ..rates import DAY, RRate
from ..ref import RCurve, exp
from .c06 import GRIDS, SHORT, SHORTQ, UNSORTED, far, far_dates, fine, many

LEVEL = 'exploration'
RULE = ('every credit curve type x axis x grid x origin x day count x '
        'interpolation x spread of the lists below, evaluated at every '
        'ordered pair of grid, between, before and after dates; survival '
        'probability, flat intensity and hazard rate compared with an '
        'independent model, product rule on all triples, range and '
        'monotonicity; certain survival and certain default as data')
BOUNDS = {'grids': '1 to 5 of 7 dates, some with 15 to 21 dates',
          'pairs': 'all ordered pairs of about '
          '10 dates', 'hazard rate curves': 'dates within 8 months, some with '
          'dates within 31 years'}
ASSUMPTIONS = ['hazard and marginal curves only for start <= stop',
               'hazard rate curves only with BusinessDate (documented step '
               'of one day)']
TENOR = {'float': 1.0, 'int': 1, 'date': timedelta(365), 'bd': '1Y'}
ALT = {'float': 0.75, 'int': 2, 'date': timedelta(200), 'bd': '7M'}
CLS = ('FlatIntensityCurve', 'SurvivalProbabilityCurve',
       'DefaultProbabilityCurve', 'HazardRateCurve',
       'MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve')
PROB = CLS[1:3] + CLS[4:]
ALTS = {'FlatIntensityCurve': ('linear', 'constant', 'right'),
        'HazardRateCurve': ('linear_scheme', 'right', 'linear')}
ALTP = 'linear_scheme', 'log_linear_scheme', 'constant'
ORIGINS = 'first', 'before', 'mid', 'zero'


def scenarios(tier):
    for sc in many(CLS[:3] + CLS[4:], ('plain', 'ip0')):
        yield sc
    for cls in CLS:
        for sc in far(cls == 'HazardRateCurve' and tier == 'quick'):
            if sc['var'] != 'spread' or cls not in PROB:
                yield dict(sc, cls=cls)
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'HazardRateCurve' and ax != 'bd':
                continue
            for g in GRIDS + UNSORTED:
                for o in ORIGINS:
                    if o == 'zero' and ax not in ('float', 'int'):
                        continue
                    for var in ('plain', 'dc', 'ip0', 'ip1', 'ip2', 'spread',
                                'tenor', 'fix', 'pos'):
                        if cls == 'HazardRateCurve' and tier == 'quick' and (
                                g not in ((1,), (3, 1), (1, 2, 4)) or
                                o == 'mid' or var in ('ip2', 'tenor')):
                            continue
                        if var == 'spread' and cls in PROB:
                            continue
                        if var in ('plain', 'pos') and (
                                cls != 'HazardRateCurve' or tier != 'quick'):
                            keys = (0, 1, 2)
                        else:
                            keys = (1,)
                        for key in keys:
                            yield {'cls': cls, 'axis': ax, 'grid': g,
                                   'origin': o, 'var': var, 'key': key}
    for cls in CLS:  # extreme intensities and probabilities
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'HazardRateCurve' and ax != 'bd':
                continue
            for g in GRIDS + UNSORTED:
                for o in ORIGINS[:3]:
                    for var in ('plain', 'pos', 'dc'):
                        if cls == 'HazardRateCurve' and (
                                len(g) != 3 or o == 'mid'):
                            continue
                        for k in (0, 3) if cls == 'HazardRateCurve' else (0,):
                            yield {'cls': cls, 'axis': ax, 'grid': g,
                                   'origin': o, 'var': var,
                                   'key': 100 + len(g) + k}
    for cls in PROB:
        for ax in ('float', 'bd', 'date'):
            for p in ((1.0, 0.0), (1.0, 0.5, 0.0), (0.5, 0.0), (1.0, 1.0),
                      (0.75, 0.5, 0.5), (1.5, -0.25)):
                yield {'cls': cls, 'axis': ax, 'sure': p}


def sure(sc, ctx):
    """certain events"""
    pts, _ = axis(sc['axis'])
    p = list(sc['sure'])
    cls = sc['cls']
    grid = pts[1:1 + len(p)]
    data = [1. - x for x in p] if 'Default' in cls else p
    c = make(cls, grid, data, origin=pts[0], forward_tenor=TENOR[sc['axis']])
    for d, x in zip(grid, p):
        x = max(0., min(1., x))
        ctx.close(c(d), x, 'probability at %s', d, abs_=1e-15)
        ctx.ok(0. <= c(d) <= 1., 'probability at %s in [0,1]', d)
        if 'Marginal' in cls:
            got = c.get_survival_prob(d, d + TENOR[sc['axis']])
        else:
            got = c.get_survival_prob(d)
        ctx.close(got, x, 'survival at %s', d, abs_=1e-15)
        for e in grid:
            if d <= e and 'Marginal' not in cls and x > 0:
                q = c.get_survival_prob(d, e)
                ctx.ok(-1e-15 <= q <= 1. + 1e-12, 'P(%s,%s)=%s', d, e, q)
        ctx.case(sc['sure'], str(d))


def setup(sc):
    import dcf
    cls, ax, var = sc['cls'], sc['axis'], sc['var']
    pts, qs = axis(ax, 2.0 if sc['origin'] == 'zero' else 0.0,
                   sc.get('many', 0))
    if cls == 'HazardRateCurve':
        pts, qs = SHORT, SHORTQ
    pts, qs = far_dates(sc, pts, qs)
    grid = [pts[i] for i in sc['grid']]
    data, meant = vals(cls, len(grid), sc['key'])
    if cls in PROB[:2]:  # decreasing in time
        meant = [v for _, v in sorted(zip(grid, sorted(meant)[::-1]))]
        meant = dict(zip(sorted(grid), meant))
        meant = [meant[d] for d in grid]
        data = [1. - x for x in meant] if 'Default' in cls else meant
    if var == 'pos' and cls not in PROB:
        data = meant = [abs(x) for x in meant]
    if cls in PROB[2:]:  # not monotone
        meant = [(0.99, 0.75, 0.9375, 0.5, 1.0)[(i + sc['key']) % 5]
                 for i in range(len(grid))]
        if sc['key'] >= 100:
            meant = [(1. - 1e-9, 1e-4, 0.999, 0.01, 1e-9)[(i + sc['key']) % 5]
                     for i in range(len(grid))]
            if 'Default' in cls:
                meant = [1. - (1. - x) for x in meant]
        data = [1. - x for x in meant] if 'Default' in cls else meant
    kw, mk = {}, {}
    if sc['origin'] == 'first':
        origin = grid[0]
    elif sc['origin'] == 'before':
        origin = kw['origin'] = pts[0]
    elif sc['origin'] == 'mid':
        origin = kw['origin'] = twin(pts[2])
    else:
        origin = kw['origin'] = 0.0 if ax == 'float' else 0
    if var == 'dc':
        kw['day_count'] = mk['dc'] = bent
    if var.startswith('ip'):
        kw['interpolation'] = mk['kind'] = ALTS.get(cls, ALTP)[int(var[2])]
    tenor = ALT[ax] if var == 'tenor' else TENOR[ax]
    if ax != 'bd' or var == 'tenor':
        kw['forward_tenor'] = tenor
    real = make(cls, grid, data, **kw)
    model = RRate(cls, zip(grid, meant), origin, tenor=tenor, **mk)
    if var == 'spread':
        real.spread = dcf.DateCurve([pts[1], pts[4]], [0.001, 0.004])
        model = model.with_(spread=RCurve([(pts[1], .001), (pts[4], .004)],
                                          'linear_scheme', pts[1]))
    if var == 'fix':
        v = meant[0] * 0.5 if cls in PROB else meant[0] + 0.25
        real.fixings[pts[3]] = v
        model = model.with_(fix={pts[3]: v})
    return real, model, grid, pts, qs


def run(sc, ctx):
    if 'sure' in sc:
        return sure(sc, ctx)
    cls, ax = sc['cls'], sc['axis']
    point = cls in PROB[:2]  # survival from origin is stored
    if point and len(sc['grid']) == 1 and sc['origin'] == 'first':
        return
    c, m, grid, pts, qs = setup(sc)
    o = m.origin
    dates = sorted(set(grid + [o] + pts[2:6:3] + qs[1:9:2]))
    if sc.get('far'):
        dates = sorted(set(grid + [o] + qs[1:4]))
    if cls == 'HazardRateCurve':
        dates = sorted(set(grid + [o] + qs[1:4]))
    ordered = cls == 'HazardRateCurve' or cls in PROB[2:]
    if point:  # probability of survival until a date after the origin
        dates = [d for d in dates if o <= d]
    try:
        own = point and abs(m(o) - 1.0) > 1e-12
    except (IndexError, OverflowError):
        own = True
    ctx.ok(c.origin == o, 'origin %s', c.origin)
    log, p = {}, {}
    for s in dates:
        for t in dates:
            if t < s and ordered:
                continue
            if point and (not 0 < m(s) or not 0 < m(t)):
                continue
            x = m.lograte(s, t)
            if fine(x):
                log[s, t] = x
    for (s, t), x in log.items():
        ctx.case(s, t, x)
        a, b = twin(s), twin(t)
        if s == t:
            if not (own and s == o):
                ctx.close(c.get_survival_prob(a, b), 1.0, 'P(%s,%s)', s, t)
            continue
        p[s, t] = c.get_survival_prob(a, b)
        ctx.close(p[s, t], exp(-x), 'P(%s,%s)', s, t)
        z, y = c.get_flat_intensity(a, b), m.dc(s, t)
        ctx.close(z, x / y, 'flat intensity(%s,%s)', s, t, rel=1e-8,
                  abs_=1e-11)
        if fine(z * y):
            ctx.close(exp(-z * y), p[s, t], 'exp(-flat intensity)')
    for s, t in p:
        if s == o:
            ctx.close(c.get_survival_prob(twin(t)), p[s, t], 'P(%s)', t)
            ctx.close(c.get_flat_intensity(twin(t)),
                      c.get_flat_intensity(s, t), 'flat intensity(%s)', t)
        if cls in PROB[2:] and s < t:
            ctx.ok(0. <= p[s, t] <= 1. + 1e-12, 'P(%s,%s)=%s', s, t, p[s, t])
        for u in dates:
            if (s, u) not in p or (u, t) not in p or own and o in (u, t):
                continue
            if ordered and cls != 'HazardRateCurve':
                # whole number of periods
                x = s
                while x < u:
                    x += m.tenor
                if x != u:
                    continue
            ctx.close(p[s, u] * p[u, t], p[s, t], 'P(%s,%s) via %s', s, t, u)
        if sc['var'] == 'pos' and o <= s < t and cls == 'HazardRateCurve':
            ctx.ok(0. <= p[s, t] <= 1., 'P(%s,%s)=%s', s, t, p[s, t])
    if cls not in PROB[:2] or any(o < d for d in grid):
        if cls not in PROB[2:] or ax == 'bd':
            ctx.close(c.get_flat_intensity(o, twin(o)), m.instant(),
                      'flat intensity at origin', rel=1e-8, abs_=1e-11)
            ctx.close(c.get_flat_intensity(twin(o)), m.instant(),
                      'flat intensity at origin', rel=1e-8, abs_=1e-11)
    # intensity for no time: the intensity over the next day
    if ax == 'bd':
        for s in dates:
            if s == o or ordered and s < o:
                continue
            if cls == 'HazardRateCurve':
                w = m(s)
            else:
                w = m.zero(s, s + DAY)
            ctx.close(c.get_flat_intensity(s, twin(s)), w, 'intensity(%s) '
                      'for no time', s, rel=1e-7, abs_=1e-9)
    # hazard rates
    g = sorted(grid)
    for s in dates if cls != 'HazardRateCurve' else dates[:4]:
        if cls == 'HazardRateCurve':
            w = m(s)
        elif cls in PROB[2:]:
            if s < g[0]:
                s0 = g[0]
            else:
                s0 = s
            if s0 >= g[-1]:
                if ax != 'bd':
                    continue
                w = m.zero(g[-1], g[-1] + '1D')
            else:
                i = max(k for k, d in enumerate(g) if d <= s0)
                w = m.zero(g[i], g[i + 1])
        elif len(g) == 1:
            if g[0] == o and (point or ax != 'bd'):
                continue
            w = m.instant() if g[0] == o else m.short(s)
        else:
            if point and (g[0] < o):
                continue
            w = m.short(s)
        ctx.close(c.get_hazard_rate(twin(s)), w, 'hazard rate(%s)', s,
                  rel=1e-8, abs_=1e-11)
    ctx.sample({'s': str(dates[0]), 't': str(dates[-1])})
