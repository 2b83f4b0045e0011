"""C05 casting curves from one representation to another"""
import itertools
from datetime import timedelta

from ..alpha import MANY, act360, axis, bent, twin
from ..fam import FAM, edits, make, vals
from ..rates import RRate
from ..ref import RCurve, tau
from .c06 import SHORT, SHORTQ

LEVEL = 'model_checking'
RULE = ('all chains of casts up to the depth between the interest rate '
        'representations and between the credit representations (and date '
        'curves), starting from every representation x grid x origin x day '
        'count x tenor x spread, with and without an explicit new grid, in '
        'lockstep with a model: what the new curve stores on each of its '
        'dates is what the old one represents there, all factors, origin, '
        'day count and tenor; the old curve stays as it is')
BOUNDS = {'depth': '2 with daily steps involved, 3 else',
          'grids': '5, some with 15 to 21 dates'}
ASSUMPTIONS = ['casts without explicit grid need BusinessDate (documented '
               'periods like 1d, 1y are added)', 'short and hazard rate '
               'curves: dates within 8 months',
               'tenor unchanged for cash rates and marginal probabilities']
IR = 'ZeroRateCurve', 'DiscountFactorCurve', 'CashRateCurve', 'ShortRateCurve'
CR = ('FlatIntensityCurve', 'SurvivalProbabilityCurve',
      'DefaultProbabilityCurve', 'HazardRateCurve',
      'MarginalSurvivalProbabilityCurve')
DAILY = 'ShortRateCurve', 'HazardRateCurve'
TENOR = {'float': 0.75, 'int': 2, 'date': timedelta(200), 'bd': '3M'}


def scenarios(tier):
    for fam in (IR, CR):
        for src in fam:
            for dst in fam:
                for g in ((0, 2), (1,), (1, 2, 4), (4, 1, 2), (0, 1, 3, 5)):
                    for var in ('plain', 'before', 'dc', 'ip', 'tenor',
                                'spread', 'oldcast', 'ipkw'):
                        yield {'fam': fam is IR, 'chain': (src, dst),
                               'grid': g, 'var': var}
    for fam in (IR, CR):
        quick = [k for k in fam if k not in DAILY]
        for ch in itertools.product(quick, repeat=3):
            for g in ((0, 1, 3), (3, 0)):
                yield {'fam': fam is IR, 'chain': ch, 'grid': g,
                       'var': 'before'}
        if tier != 'quick':
            for ch in itertools.product(quick, repeat=4):
                yield {'fam': fam is IR, 'chain': ch, 'grid': (1, 2, 4),
                       'var': 'dc'}
            for ch in itertools.product(fam, repeat=3):
                yield {'fam': fam is IR, 'chain': ch, 'grid': (1, 2),
                       'var': 'plain'}
    # explicit new grid on every axis
    for fam in (IR[:3], CR[:3]):
        for ax in ('float', 'int', 'date', 'bd'):
            for src, dst in itertools.product(fam, fam):
                for g in ((1,), (1, 4), (3, 1, 2)):
                    for new in ((1, 2, 4), (2, 5, 6), (3,), (5, 2)):
                        for var in ('plain', 'before', 'dc', 'ip'):
                            yield {'axis': ax, 'chain': (src, dst),
                                   'grid': g, 'new': new, 'var': var}
    for fam in (IR[:3], CR[:3]):  # many dates
        for ax in ('float', 'int', 'date', 'bd'):
            for src, dst in itertools.product(fam, fam):
                for g in MANY:
                    for var in ('plain', 'before'):
                        sc = {'axis': ax, 'chain': (src, dst), 'many': 24,
                              'grid': g, 'var': var}
                        for new in (MANY[0][::-1], tuple(range(2, 31, 3))):
                            yield dict(sc, new=new)
                        if ax == 'bd':
                            yield sc
    # curves of plain values
    for ax in ('float', 'int', 'date', 'bd'):
        for src in FAM:
            if src != 'Curve':
                for g in ((1,), (0, 3), (3, 1, 2)):
                    yield {'axis': ax, 'plain': src, 'grid': g}


def daily(sc):
    return any(k in DAILY for k in sc['chain'])


def source(sc, cls, ax, pts):
    import dcf
    grid = [pts[i] for i in sc['grid']]
    data, meant = vals(cls, len(grid), 0)
    if cls in CR[1:3]:
        meant = dict(zip(sorted(grid), sorted(meant)[::-1]))
        meant = [meant[d] for d in grid]
        data = [1. - x for x in meant] if 'Default' in cls else meant
    if cls in CR and cls not in CR[1:3] + CR[4:]:
        data = meant = [abs(x) for x in meant]
    if FAM[cls][1] == 'rate':
        data = meant = [x / 4. for x in meant]
    kw, origin, dc, kind = {}, grid[0], tau, FAM[cls][0]
    var = sc['var']
    if var != 'plain' or FAM[cls][1] != 'rate':
        kw['origin'] = origin = twin(pts[0])
    if var == 'dc':
        kw['day_count'] = dc = act360 if daily(sc) else bent
    if var == 'ip':
        kw['interpolation'] = kind = 'right' if FAM[cls][1] == 'rate' \
            else 'log_linear_scheme'
    tenor = TENOR[ax]
    if cls in CR:
        tenor = {'bd': '1Y'}.get(ax, tenor)
    if var == 'tenor':
        tenor = '5M'
    if var == 'tenor' or ax != 'bd':
        kw['forward_tenor'] = tenor
    if FAM[cls][1] in ('df', 'prob', 'default') and origin in grid:
        i = grid.index(origin)
        meant, data = list(meant), list(data)
        meant[i], data[i] = 1., 0. if FAM[cls][1] == 'default' else 1.
    c = make(cls, grid, data, **kw)
    m = RRate(cls, zip(grid, meant), origin, kind, dc, tenor)
    if var == 'spread':
        c.spread = dcf.DateCurve([pts[1], pts[4]], [0.001, 0.004])
        m = m.with_(spread=RCurve([(pts[1], .001), (pts[4], .004)],
                                  'linear_scheme', pts[1]))
    return c, m, grid


def run(sc, ctx):
    import dcf
    if 'plain' in sc:
        return plain(sc, ctx)
    ax = sc.get('axis', 'bd')
    pts, qs = axis(ax, many=sc.get('many', 0))
    if daily(sc):
        pts, qs = SHORT, SHORTQ
    if sc['var'] == 'spread' and sc['chain'][0] in CR[1:3] + CR[4:]:
        return  # no spreads on probabilities
    src = sc['chain'][0]
    if FAM[src][1] != 'rate' and list(sc['grid']) == [0]:
        return
    c, m, grid = source(sc, src, ax, pts)
    for dst in sc['chain'][1:]:
        what = '%s from %s' % (dst, type(c).__name__)
        if sc['var'] == 'oldcast':
            new = c.cast(getattr(dcf, dst))
        elif 'new' in sc:
            if FAM[dst][1] != 'rate' and [pts[i] for i in sc['new']] == [
                    m.origin]:
                return  # no rate at all
            new = getattr(dcf, dst)([pts[i] for i in sc['new']], c)
        elif sc['var'] == 'ipkw':
            new = getattr(dcf, dst)(c, interpolation='loglinear' if FAM[dst][
                1] != 'rate' else 'constant')
        else:
            new = getattr(dcf, dst)(c)
        dom = sorted(new.domain)
        o = m.origin
        if 'new' in sc:
            ctx.ok(dom == sorted(pts[i] for i in sc['new']),
                   '%s: domain', what)
        else:
            ctx.ok(set(dom) >= set(d for d, _ in m.points),
                   '%s: domain %s', what, dom)
        if len(dom) != len(set(dom)):
            ctx.ok(False, '%s: domain twice', what)
        ctx.ok(type(new) is getattr(dcf, dst), '%s: type', what)
        ctx.ok(new.origin == o, '%s: origin %s', what, new.origin)
        ctx.close(new.day_count(pts[1], pts[3]), m.dc(pts[1], pts[3]),
                  '%s: day count', what)
        want = []
        skip = m.cls in DAILY or m.cls in CR[4:] or m.cls == IR[2]
        for d in dom:
            if skip and d < o or sc['var'] == 'spread' and d == o and \
                    m.cls == IR[1]:
                want.append(new(d))  # only forward in time
            elif sc['grid'] == (0,) and d == o or ax != 'bd' and d == o and \
                    FAM[m.cls][1] != 'rate' and dst in (IR[0], CR[0]) and \
                    not any(o < x for x, _ in m.points):
                want.append(new(d))
            else:
                want.append(m.stored(d, dst, m.tenor))
        got = [new(d) for d in dom]
        if dst in CR[1:3] + CR[4:] and any(w > 1. for w in want):
            break  # intensities of the source are negative
        ctx.close(got, want, '%s: values on %s', what, dom, rel=1e-8,
                  abs_=1e-10)
        kind = FAM[dst][0]
        if sc['var'] == 'ipkw':
            kind = 'loglinear' if FAM[dst][1] != 'rate' else 'constant'
        if new.forward_tenor != m.tenor:
            ctx.ok(False, '%s: tenor %s', what, new.forward_tenor)
        n = RRate(dst, zip(dom, want), o, kind, m.dc, m.tenor)
        # the same curve in between, too
        ts = [q for q in qs[1::2] if o <= q][:3] + grid
        if len(dom) > 1 or dom[0] != o:
            ctx.close([new(t) for t in ts], [n(t) for t in ts],
                      '%s: values at %s', what, ts, rel=1e-8, abs_=1e-10)
        if sc['fam'] if 'fam' in sc else dst in IR:
            f, g = new.get_discount_factor, c.get_discount_factor
        else:
            f, g = new.get_survival_prob, c.get_survival_prob
        exact = dst in IR[:2] + CR[:3]
        if dst in DAILY and o in [d for d, _ in m.points] and \
                m.cls in IR[:2] + CR[:3] and len(m.points) > 1 and \
                sc['var'] not in ('ipkw', 'spread'):
            exact = min(d for d, _ in m.points) == o
        for d in [d for d, _ in m.points] if 'new' not in sc else dom:
            if exact and o <= d and (d != o or abs(m(o) - 1.) < 1e-12 or
                                     FAM[m.cls][1] == 'rate'):
                if dst in CR[1:3] and m.df(o, d) > 1:
                    continue
                ctx.close(f(d), g(d), '%s: factor to %s', what, d, rel=1e-8)
                ctx.close(f(d), m.df(o, d), '%s: factor to %s', what, d,
                          rel=1e-8)
        # the old curve stays as it is and the new one does not depend on it
        old = [d for d, _ in m.points]
        ctx.ok(sorted(c.domain) == sorted(old), '%s: old domain', what)
        ctx.close([c(d) for d in old], [m(d) for d in old], '%s: old', what)
        if sc['var'] == 'spread':
            c.spread = None
            ctx.close([new(d) for d in dom], got, '%s: new changed', what)
            break
        ctx.trans()
        ctx.state(dst, [(str(a), round(b, 10)) for a, b in zip(dom, got)])
        if not all(0 < g for g in got) and FAM[dst][1] != 'rate':
            break
        c, m = new, n
    ctx.trace()
    ctx.sample({'chain': sc['chain'], 'grid': [str(d) for d in grid]})


def others(ctx, k, see, have, size, one):
    for j in see:
        if j != k:
            ctx.close(see[j](), have[j], 'edit of %s shows in %s', k, j)
            ctx.ok(sorted(one[j].domain) == size[j], 'domain of %s', j)


def plain(sc, ctx):
    """DateCurve and Curve of any date curve"""
    import dcf
    ax, cls = sc['axis'], sc['plain']
    pts, qs = axis(ax)
    grid = [pts[i] for i in sc['grid']]
    data, meant = vals(cls, len(grid), 0)
    for kw in ({}, {'origin': pts[0]}, {'origin': pts[2]},
               {'origin': pts[0], 'day_count': bent},
               {'origin': pts[0], 'interpolation': 'linear'}):
        if FAM[cls][0] == 'log_linear_rate_scheme' and len(grid) == 1 and \
                kw.get('origin', grid[0]) == grid[0]:
            continue
        if cls == 'FxForwardCurve':
            kw = dict(kw, domestic_curve=dcf.ZeroRateCurve([pts[0]], [0.03]),
                      foreign_curve=dcf.ZeroRateCurve([pts[0]], [0.01]))
        c = make(cls, grid, data, **kw)
        dc = kw.get('day_count', tau)
        o = kw.get('origin', grid[0])
        d = dcf.DateCurve(c)
        ctx.ok(d.origin == o, 'origin of DateCurve')
        ctx.ok(sorted(d.domain) == sorted(grid), 'domain')
        ctx.close(d.day_count(pts[1], pts[4]), dc(pts[1], pts[4]), 'dc')
        ctx.close([d(x) for x in grid], meant, 'values of DateCurve')
        if 'interpolation' in kw:
            ts = [q for q in pts + qs if q <= max(grid)]
            ctx.close([d(x) for x in ts], [c(x) for x in ts], 'between')
        e = dcf.DateCurve(pts[2:5], c)
        ctx.ok(list(e.domain) == pts[2:5] and e.origin == o, 'new domain')
        ctx.close([e(x) for x in pts[2:5]], [c(x) for x in pts[2:5]], 'grid')
        # any origin given wins
        for o2 in (pts[0], pts[1], pts[3]):
            for f in (dcf.DateCurve(c, origin=o2),
                      dcf.DateCurve(pts[2:5], c, origin=o2)):
                ctx.ok(f.origin == o2, 'origin %s of cast: %s', o2, f.origin)
        for f in (dcf.Curve(c), c.to_curve()):
            xs = [dc(o, x) for x in grid]
            ctx.close(sorted(f.domain), sorted(xs), 'domain of Curve')
            ctx.close([f(x) for x in xs], meant, 'values of Curve')
        # edits of one do not show in another one
        ts = [x for x in pts if x <= max(grid)]
        ends = [x for x in pts[2:5]]
        see = {'orig': lambda: [c(x) for x in ts],
               'cast': lambda: [d(x) for x in grid],
               'grid': lambda: [e(x) for x in ends]}
        one = {'orig': c, 'cast': d, 'grid': e}
        have = {k: see[k]() for k in see}
        size = {k: sorted(one[k].domain) for k in one}
        _, w = edits(cls)
        for k in one:
            one[k].fixings[ends[0]] = 0.0775
            one[k].fixings[grid[0]] = 0.0875
            others(ctx, k, see, have, size, one)
            one[k].fixings.clear()
            x = one[k].domain[0]
            y = one[k][x] if k != 'orig' else meant[grid.index(x)]
            one[k][x] = w
            others(ctx, k, see, have, size, one)
            one[k][x] = y
            others(ctx, None, see, have, size, one)
        ctx.trans(13)
        ctx.state(str(kw))
        ctx.trace()
