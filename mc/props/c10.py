"""C10 present values"""
from datetime import timedelta

from ..alpha import MANY, axis, bent, twin
from ..flows import KINDS, OFF, join, make
from ..rates import RRate

LEVEL = 'exploration'
RULE = ('every kind of cashflow list (fixed, rate, floating, options, caps, '
        'floors, legs, nested legs) x payment dates (1 to 5, also unsorted) x '
        'discount curve x valuation date (before, on, between and after '
        'payment dates; none given): the present value is the sum of '
        'independently calculated cashflows on and after the valuation date '
        'times discount factors of an independent model; pairs of lists as '
        'legs; repeated valuation')
BOUNDS = {'payment dates': '8 sets of 1 to 21 dates',
          'valuation dates': 'all of 14 (38)',
          'legs': '1 to 3, about 40', 'discount curves': 11}
ASSUMPTIONS = ['option values up to the accuracy 1e-7 of the normal '
               'distribution function used']
SETS = [(1,), (1, 2, 4), (2, 3, 4, 5, 6), (4, 1, 3), (5, 2)]
CURVES = 'flat', 'zero', 'df', 'cash', 'spread', 'deep', 'steep', \
    'dc', 'short'


def scenarios(tier):
    for ax in ('float', 'int', 'date', 'bd'):
        for kind in KINDS:
            for k, idx in enumerate(SETS):
                if kind in ('noorg', 'rate', 'rateoff', 'dc', 'float',
                            'zero') and list(idx) != sorted(idx) and \
                        kind == 'noorg':
                    continue
                for cv in CURVES:
                    if cv == 'short' and (
                            ax != 'bd' or k != 1 or KINDS.index(kind) % 3):
                        continue
                    yield {'axis': ax, 'kind': kind, 'set': idx,
                           'curve': cv, 'key': k}
        for cv in CURVES[:-1]:
            yield {'axis': ax, 'kind': 'all', 'set': (1,), 'curve': cv,
                   'key': 0}
        for idx in SETS + list(MANY):
            for cv in ('null', 'zero'):
                yield {'axis': ax, 'same': 1, 'set': idx, 'curve': cv}
        for kind in KINDS:  # many flows
            for k, idx in enumerate(MANY):
                for cv in ('zero', 'df'):
                    yield {'axis': ax, 'kind': kind, 'set': idx, 'curve': cv,
                           'key': k}
        for kind in KINDS:  # very many flows
            if ax in ('float', 'bd'):
                yield {'axis': ax, 'kind': kind, 'set': tuple(range(1, 131)),
                       'curve': 'flat', 'key': 2}
        for k1 in KINDS:
            for k2 in KINDS:
                yield {'axis': ax, 'kind': k1, 'other': k2, 'set': (1, 2, 4),
                       'curve': 'zero', 'key': 1}


def curve(name, pts, ax):
    import dcf
    from ..ref import RCurve
    g = [pts[1], pts[3], pts[5]]
    if name == 'null':
        return dcf.ZeroRateCurve([pts[0]], [0.0]), RRate(
            'ZeroRateCurve', [(pts[0], 0.0)], pts[0])
    if name == 'flat':
        return dcf.ZeroRateCurve([pts[0]], [0.03]), RRate(
            'ZeroRateCurve', [(pts[0], 0.03)], pts[0])
    if name in ('deep', 'steep'):
        z = -0.75 if name == 'deep' else 2.5
        return dcf.ZeroRateCurve([pts[0]], [z]), RRate(
            'ZeroRateCurve', [(pts[0], z)], pts[0])
    if name in ('zero', 'spread'):
        z = [0.01, 0.04, -0.005]
        c = dcf.ZeroRateCurve(g, z, origin=pts[0])
        m = RRate('ZeroRateCurve', zip(g, z), pts[0])
        if name == 'spread':
            c.spread = dcf.DateCurve([pts[0], pts[4]], [0.01, 0.002])
            m = m.with_(spread=RCurve([(pts[0], .01), (pts[4], .002)],
                                      'linear_scheme', pts[0]))
        return c, m
    if name == 'dc':
        h, z = [pts[4], pts[0], pts[6], pts[2]], [0.04, 0.01, 0.02, -0.01]
        return dcf.ZeroRateCurve(h, z, 'nearest', pts[0], bent), RRate(
            'ZeroRateCurve', zip(h, z), pts[0], 'nearest', bent)
    if name == 'short':
        z = [0.01, 0.04, -0.02]
        return dcf.ShortRateCurve(g, z, origin=pts[0]), RRate(
            'ShortRateCurve', zip(g, z), pts[0])
    if name == 'df':
        z = [0.99, 0.9, 0.75]
        return dcf.DiscountFactorCurve(g, z, origin=pts[2]), RRate(
            'DiscountFactorCurve', zip(g, z), pts[2])
    ten = {'float': 0.5, 'int': 2, 'date': timedelta(200), 'bd': '6M'}[ax]
    z = [0.01, 0.04, 0.02]
    return dcf.CashRateCurve(g, z, origin=pts[0], forward_tenor=ten), RRate(
        'CashRateCurve', zip(g, z), pts[0], tenor=ten)


def run(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=max(26, max(sc['set']) - 6)
                   if max(sc['set']) > 6 else 0)
    if 'same' in sc:
        return same(sc, pts, ctx)
    if sc['kind'] == 'all':  # many legs, side by side and nested
        leg = join([make(k, ax, pts, (1, 2, 4)[i % 2:], i)
                    for i, k in enumerate(KINDS)])
        other = make('rate', ax, pts, (1, 2, 4), 1)
        for i, k in enumerate(KINDS):
            other = join([other, make(k, ax, pts, (2, 3, 5), i)])
        leg = join([leg, other])
    else:
        leg = make(sc['kind'], ax, pts, tuple(sc['set']), sc['key'])
    if 'other' in sc:
        # two lists as legs of one list, and the same list twice
        other = make(sc['other'], ax, pts, (2, 4, 5), 3)
        legs = [leg, other, join([leg, other]), join([other, leg, other])]
    else:
        legs = [leg]
    c, m = curve(sc['curve'], pts, ax)
    vals = sorted(set(pts + qs[1:8]))
    got = []
    for v in vals + [None] + vals[::-1]:
        res = []
        for x in legs:
            pv = dcf.get_present_value(x.real, c, v and twin(v)) if v is not \
                None else dcf.get_present_value(x.real, c)
            w = x.pv(m.df, m.origin if v is None else v)
            s = m.origin if v is None else v
            big = max([m.df(s, d) for d in x.dates if s <= d] + [1.]) \
                if sc['curve'] == 'deep' else 1.
            ctx.close(pv, w, '%s on %s', x.kind, v, rel=x.tol,
                      abs_=x.tol * x.scale * big)
            ctx.case(x.kind, v, w)
            res.append(pv)
        if len(res) > 1:
            a, b, ab, bab = res
            s = max(x.scale for x in legs)
            ctx.close(ab, a + b, 'value of legs on %s', v, abs_=1e-9 * s)
            ctx.close(bab, a + b + b, 'value of legs on %s', v,
                      abs_=1e-9 * s)
        got.append(res)
    for a, b in zip(got[:len(vals)], got[:len(vals):-1]):
        ctx.ok(a == b, 'valuation is not repeatable: %s %s', a, b)
    # no cashflow at all
    after = max(qs[-1], pts[-1]) + OFF[ax]
    ctx.close(dcf.get_present_value(leg.real, c, after), 0.0, 'after all')
    ctx.sample({'kind': sc['kind'], 'values': got[0]})


def same(sc, pts, ctx):
    """equal flows, flows which cancel, no flows"""
    import dcf
    grid = [pts[i] for i in sc['set']]
    n = len(grid)
    c, m = curve(sc['curve'], pts, sc['axis'])
    for am in ([100.] * n, [0.] * n, [5., -5.] * n, [1.] * (n - 1) + [-1.],
               [0.] * (n - 1) + [7.], [1e-9, 3e-10] * n, [1e15, -3.] * n):
        am = am[:n]
        for cls in (dcf.CashFlowList, dcf.FixedCashFlowList):
            x = cls(grid, am)
            two = dcf.CashFlowLegList([x, cls(grid[::-1], am[::-1]), x])
            none = dcf.CashFlowLegList([x, cls(grid, [-a for a in am])])
            for v in sorted(grid + pts[:2]):
                w = sum(a * m.df(v, d) for d, a in zip(grid, am) if v <= d)
                s = 1e-12 * sum(map(abs, am))
                ctx.close(dcf.get_present_value(x, c, v), w, '%s on %s', am,
                          v, abs_=s)
                ctx.close(dcf.get_present_value(two, c, v), 3 * w,
                          'legs of %s on %s', am, v, abs_=3 * s)
                ctx.close(dcf.get_present_value(none, c, v), 0.,
                          'difference of %s on %s', am, v, abs_=2 * s)
                ctx.case(str(am), str(v))
