"""C08 forward price curves"""
import itertools

from ..alpha import MANY, bent, axis, positives, twin, values
from ..rates import RRate
from ..ref import RCurve, exp, log

LEVEL = 'model_checking'
RULE = ('all histories (up to the depth) of storing prices before, at, '
        'between and after the given dates, fixing a price and replacing the '
        'yield, on forward curves over every axis x grid x interpolation x '
        'day count x origin x kind of yield (none, number, '
        'interest rate curves; domestic and foreign curve for fx), in '
        'lockstep with a model; all query dates after every step')
BOUNDS = {'grids': '1 to 4 (some with 15 to 21) dates incl. unsorted',
          'depth': '2 (thorough 3)',
          'yields': '11 kinds, 25 pairs of fx curves'}
ASSUMPTIONS = ['positive prices', 'yield given as None, number or interest '
               'rate curve (documentation is ambiguous on functions)', 'query dates comparable with the grid']
GRIDS = [(1,), (0, 2), (3, 1), (1, 2, 4), (4, 0, 2), (1, 4, 2, 3)]
YIELDS = ('none', 'zero', 'int', 'pos', 'neg', 'big', 'one', 'rate', 'df',
          'deep', 'low')
FXC = ('flat', 'rate', 'df', 'steep', 'plunge')


def scenarios(tier):
    d = 2 if tier == 'quick' else 3
    for ax in ('float', 'int', 'date', 'bd'):
        for g in GRIDS:
            for var in ('plain', 'dc', 'ip', 'origin', 'late'):
                for y in YIELDS:
                    yield {'axis': ax, 'grid': g, 'var': var, 'yield': y,
                           'depth': d if var in ('plain', 'ip') else 1}
                for a in FXC:
                    for b in FXC:
                        yield {'axis': ax, 'grid': g, 'var': var,
                               'fx': (a, b),
                               'depth': d if var == 'plain' else 1}
    for ax in ('float', 'date', 'bd', 'int'):
        for y in YIELDS:
            yield {'axis': ax, 'spot': y}
        for g in MANY:
            for var in ('plain', 'ip'):
                for y in YIELDS:
                    yield {'axis': ax, 'grid': g, 'var': var, 'yield': y,
                           'depth': 1, 'many': 24}
                yield {'axis': ax, 'grid': g, 'var': var, 'fx': FXC[1:3],
                       'depth': 1, 'many': 24}


def rate(kind, pts, key):
    import dcf
    if kind == 'flat':
        v = [0.02, 0.035][key:key + 1]
        return dcf.ZeroRateCurve([pts[0]], v), \
            RRate('ZeroRateCurve', [(pts[0], v[0])], pts[0])
    if kind in ('steep', 'plunge'):
        v = ([3.5, -0.75] if kind == 'steep' else [-0.4, 2.5])[key:key + 1]
        return dcf.ZeroRateCurve([pts[0]], v), \
            RRate('ZeroRateCurve', [(pts[0], v[0])], pts[0])
    if kind == 'rate':
        v = values(3, key)
        d = [pts[1], pts[3], pts[6]]
        return dcf.ZeroRateCurve(d, v, origin=pts[0]), \
            RRate('ZeroRateCurve', zip(d, v), pts[0])
    v = [0.99, 0.9, 0.5] if key else [0.97, 0.8, 0.75]
    d = [pts[2], pts[4], pts[5]]
    return dcf.DiscountFactorCurve(d, v, origin=pts[1]), \
        RRate('DiscountFactorCurve', zip(d, v), pts[1])


def yields(kind, pts, dc):
    """-> (yield, model growth(s, t))"""
    if kind == 'none':
        return None, lambda s, t: 1.0
    if kind in ('zero', 'int', 'pos', 'neg', 'big', 'one', 'deep', 'low'):
        y = dict(deep=-1.25, low=-0.3, zero=0.0, int=0, pos=0.03, neg=-0.015, big=1.5, one=1)[kind]
        return y, lambda s, t: exp(y * dc(s, t))
    c, m = rate(kind, pts, 0)
    return c, lambda s, t: 1. / m.df(s, t)


class State(object):
    def __init__(self, points, grow, mk, fix):
        self.c = RCurve(points, mk['kind'], mk['origin'], mk['dc'], fix=fix)
        self.points, self.grow, self.mk, self.fix = points, grow, mk, fix
        self.last = max(d for d, _ in points)

    def __call__(self, t):
        if t <= self.last:
            return self.c(t)
        return self.c(self.last) * self.grow(self.last, t)


def check(c, m, ts, ctx, what):
    want = [m(t) for t in ts]
    for t, w in zip(ts, want):
        ctx.close(c.get_forward_price(twin(t)), w, '%s: price at %s', what, t)
        ctx.close(c(t), w, '%s: call at %s', what, t)
    ctx.close(list(c(ts)), want, '%s: list of prices', what)
    ctx.close(list(c(tuple(ts))), want, '%s: tuple of prices', what)


def run(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=sc.get('many', 0))
    ts = sorted(set(pts + qs))
    if 'spot' in sc:
        y, grow = yields(sc['spot'], pts, RCurve([(pts[0], 1)], 'linear',
                                                 pts[0]).dc)
        o = pts[2]
        for price in (100.0, 0.75):
            for c in (dcf.ForwardCurve(price, origin=o, yield_curve=y),
                      dcf.ForwardCurve(dcf.Price(price, o), yield_curve=y),
                      dcf.ForwardCurve(dcf.FxRate(price, o), yield_curve=y),
                      dcf.ForwardCurve([o], [price], yield_curve=y)):
                for t in ts:
                    w = price * (grow(o, t) if o < t else 1.0)
                    ctx.close(c(t), w, 'spot price curve at %s', t)
                ctx.ok(c.origin == o, 'origin')
                ctx.trace()
        return
    var = sc['var']
    grid = [pts[i] for i in sc['grid']]
    data = positives(len(grid), sum(sc['grid']))
    kw = {}
    mk = {'kind': 'log_linear_scheme', 'origin': grid[0],
          'dc': RCurve([(pts[0], 1)], 'linear', pts[0]).dc}
    if var == 'dc':
        kw['day_count'] = mk['dc'] = bent
    if var == 'ip':
        kw['interpolation'] = mk['kind'] = 'linear'
    if var == 'origin':
        kw['origin'] = mk['origin'] = pts[0]
    if var == 'late':
        kw['origin'] = mk['origin'] = twin(pts[3])
    if 'yield' in sc:
        y, grow = yields(sc['yield'], pts, mk['dc'])
        alts = [yields(k, pts, mk['dc']) for k in ('pos', 'rate')]

        def new():
            return dcf.ForwardCurve(grid, data, yield_curve=y, **kw)
    else:
        a, b = sc['fx']
        da, ma = rate(a, pts, 0)
        fb, mb = rate(b, pts, 1)

        def grow(s, t):
            return ma.df(s, t) / mb.df(s, t)

        def new():
            return dcf.FxForwardCurve(grid, data, domestic_curve=da,
                                      foreign_curve=fb, **kw)
        xa, xm = rate('rate', pts, 1)
        alts = [((xa, fb), lambda s, t: xm.df(s, t) / mb.df(s, t)),
                ((da, xa), lambda s, t: ma.df(s, t) / xm.df(s, t))]
    ops = [('put', pts[0], 2.5), ('put', grid[-1], 0.5), ('put', pts[3], 3.0),
           ('put', pts[5], 1.25), ('put', qs[-2], 0.75),
           ('fix', max(grid), 4.0), ('fix', pts[2], 0.25),
           ('yield', 0), ('yield', 1)]
    m0 = State(list(zip(grid, data)), grow, mk, {})
    c = new()
    check(c, m0, ts, ctx, 'initial')
    ctx.state('initial')
    late = [t for t in ts if m0.last <= t]
    for s, t in itertools.combinations(late, 2):  # no arbitrage
        ctx.close(c(t) / c(s), grow(s, t) if s == m0.last else
                  grow(m0.last, t) / grow(m0.last, s), 'growth %s %s', s, t)
    few = ts[::2] + [ts[-1]]
    for h in itertools.product(range(len(ops)), repeat=sc['depth']):
        c, m = new(), m0
        hist = []
        for k in h:
            op = ops[k]
            hist.append(op)
            pts_, g, fix = list(m.points), m.grow, dict(m.fix)
            if op[0] == 'put':
                c[op[1]] = op[2]
                pts_ = [(d, v) for d, v in pts_ if d != op[1]]
                pts_.append((op[1], op[2]))
            elif op[0] == 'fix':
                c.fixings[op[1]] = op[2]
                fix[op[1]] = op[2]
            else:
                new_y, g = alts[op[1]]
                if 'fx' in sc:
                    c.domestic_curve, c.foreign_curve = new_y
                else:
                    c.yield_curve = new_y
            m = State(pts_, g, mk, fix)
            ctx.trans()
            if len(hist) == len(h) or ctx.state(hist):
                check(c, m, few, ctx, hist)
        ctx.state(sorted((str(a), b) for a, b in m.points), sorted(
            (str(a), b) for a, b in m.fix.items()), hist[-1][0])
        ctx.trace()
    ctx.sample({'history': hist, 'last': str(m.last)})
