"""C02 histories of edits of curves, in lockstep with a model"""
import itertools

from .. import ref
from ..alpha import MANY, bent, axis, twin
from ..fam import ALT, FAM, edits, make, model, vals
from ..ref import RCurve

LEVEL = 'model_checking'
RULE = ('all sequences of edits up to the depth (overwrite/insert a point '
        'before, between, after the grid, set/clear/re-set a spread curve, '
        'edit the spread curve, set/remove a fixing, failing edits) replayed '
        'on the real curve in lockstep with an immutable model; after every '
        'step all grid and query points, domain, membership, iteration, '
        'item access and a second curve built from the same lists')
BOUNDS = {'depth': '2 for all classes/axes, 3 for the deep ones '
                   '(thorough 3 and 4), 3 of more than 40 edits',
          'operations': '10 to 16'}
ASSUMPTIONS = ['edits at points comparable to the grid',
               'a curve whose origin is given implicitly keeps its first '
               'given date as origin']

DEEP = ('Curve', 'DateCurve', 'ZeroRateCurve', 'DiscountFactorCurve',
        'SurvivalProbabilityCurve', 'ForwardCurve')


def scenarios(tier):
    more = 0 if tier == 'quick' else 1
    n = 16
    for cls in FAM:
        for ax in ('float', 'int', 'date', 'bd')[:2 if cls == 'Curve' else 4]:
            for cfg in range(4):
                for first in range(n):
                    yield {'cls': cls, 'axis': ax, 'cfg': cfg,
                           'depth': 2 + more, 'first': first}
    for cls in FAM:  # many points, one by one or at once
        for ax in ('float', 'int', 'date', 'bd')[:2 if cls == 'Curve' else 4]:
            for k in range(len(MANY)):
                for cfg in (0, 1, 3):
                    yield {'cls': cls, 'axis': ax, 'cfg': cfg, 'depth': 1,
                           'first': 0, 'many': 24, 'grow': k}
    for cls in DEEP:
        for ax, cfg in (('float', 1), ('bd' if cls != 'Curve' else 'int', 0)):
            for first in range(n):
                yield {'cls': cls, 'axis': ax, 'cfg': cfg,
                       'depth': 3 + more, 'first': first}


def build(sc):
    cls, ax, cfg = sc['cls'], sc['axis'], sc['cfg']
    pts, qs = axis(ax, many=sc.get('many', 0))
    dom = [pts[1], pts[3], pts[4]]
    kw, mk = {}, {}
    if cfg == 1:  # unsorted
        dom = [dom[2], dom[0], dom[1]]
    if cfg == 2:
        dom = tuple(dom)
    if cls != 'Curve':
        if cfg == 1:
            kw['origin'] = pts[0]
            mk['origin'] = pts[0]
        if cfg == 2:
            kw['origin'] = mk['origin'] = pts[2]
            kw['day_count'] = mk['dc'] = bent
    if cfg == 3:
        alt = ALT[sorted(FAM).index(cls) % len(ALT)]
        if FAM[cls][1] == 'rate' and 'log' in alt:
            alt = 'nearest'
        kw['interpolation'] = mk['interpolation'] = alt
        dom = [pts[1], pts[4]]
        if cls != 'Curve':
            kw['origin'] = mk['origin'] = pts[0]
    data, meant = vals(cls, len(dom), cfg)
    return dom, data, kw, meant, mk, pts, qs


class Pair(object):
    """real curve and model side by side"""

    def __init__(self, sc):
        import dcf
        self.dcf = dcf
        self.sc = sc
        self.cls = sc['cls']
        dom, data, kw, meant, mk, self.pts, self.qs = build(sc)
        self.dom, self.data = dom, data
        cdom, cdata = list(dom), list(data)
        self.real = make(self.cls, dom, data, **kw)
        self.other = make(self.cls, dom, data, **kw)
        self.model = model(self.cls, list(dom), meant, **mk)
        self.model0 = self.model
        self.inputs = dom, data, cdom, cdata
        self.spread = None
        # extrapolation by yield is subject of another property
        self.last = max(dom) if 'Forward' in self.cls else None
        self.s1 = self.s2 = None

    def ops(self):
        p, q = self.pts, self.qs
        v, w = edits(self.cls)
        g = list(self.dom)
        res = [('put', twin(g[-1]), v), ('put', g[0], w),
               ('put', p[0], w), ('put', p[2], v), ('put', p[5], w)]
        if self.cls == 'Curve':
            return res + [('put', q[0], v), ('bad', g[0]), ('bad', p[2]),
                          ('put', p[3], w)]
        res += [('fix', g[-1], w), ('fix', p[2], v), ('unfix', g[-1])]
        if FAM[self.cls][2]:
            res += [('spread', 1), ('spread', 2), ('spread', 0),
                    ('sput', p[0], 0.0078125), ('sput', p[4], -0.001)]
        res += [('bad', g[0]), ('bad', p[2]), ('near', g[1])]
        return res

    def mkspread(self, k):
        p = self.pts
        if k == 1:
            c = self.dcf.DateCurve([p[1]], [0.25])
            m = RCurve([(p[1], 0.25)], 'linear_scheme', p[1])
        else:
            c = self.dcf.ZeroRateCurve([p[2], p[4]], [0.0, 0.005],
                                       origin=p[0])
            m = RCurve([(p[2], 0.0), (p[4], 0.005)], 'linear_scheme', p[0])
        return c, m

    def step(self, op, ctx):
        r, m = self.real, self.model
        kind = op[0]
        if kind == 'near':  # hardly another value
            y = dict(m.points)[op[1]] * (1. + 4e-7)
            r[op[1]] = y
            self.model = m.put(op[1], y)
        elif kind == 'put':
            r[op[1]] = op[2]
            self.model = m.put(op[1], op[2])
            if self.last is not None:
                self.last = max(self.last, op[1])
        elif kind == 'fix':
            r.fixings[op[1]] = op[2]
            f = dict(m.fix)
            f[op[1]] = op[2]
            self.model = m.with_(fix=f)
        elif kind == 'unfix':
            r.fixings.pop(op[1], None)
            f = dict(m.fix)
            f.pop(op[1], None)
            self.model = m.with_(fix=f)
        elif kind == 'spread':
            if op[1] == 0:
                r.spread = None
                self.spread = None
                self.model = m.with_(spread=None)
            else:
                c, ms = self.mkspread(op[1])
                if m.spread is not None:
                    def again():
                        r.spread = c
                    ctx.raises(TypeError, again, 'spread set twice')
                else:
                    r.spread = c
                    self.spread = c
                    self.model = m.with_(spread=ms)
        elif kind == 'sput':
            if self.spread is not None:
                self.spread[op[1]] = op[2]
                self.model = m.with_(spread=m.spread.put(op[1], op[2]))
        elif kind == 'bad':
            def bad():
                r[op[1]] = 'nonsense'
            ctx.raises((TypeError, ValueError), bad, 'bad value accepted')
        ctx.trans()

    def check(self, ctx, what):
        r, m, cls = self.real, self.model, self.cls
        grid = [d for d, _ in m.points]
        ctx.ok(sorted(r.domain) == sorted(grid), '%s: domain %s, expected %s',
               what, r.domain, grid)
        ctx.ok(list(r) == list(r.domain), '%s: iteration gives %s', what,
               list(r))
        ts = grid + [self.pts[0], self.pts[2], self.pts[6]] + self.qs[::3]
        if self.last is not None:
            ts = [t for t in ts if t <= self.last]
        want = [m(t) for t in ts]
        got = r(ts)
        ctx.close(list(got), want, '%s: values at %s', what, ts)
        for t in grid:
            ctx.ok(t in r and twin(t) in r, '%s: %s not in curve', what, t)
            ctx.close(r[t], m(t), '%s: item %s', what, t)
        for t in (self.pts[6], self.qs[0]):
            if t not in grid:
                ctx.ok(t not in r, '%s: %s in curve', what, t)
                ctx.raises(KeyError, lambda: r[t], '%s: item %s', what, t)
        if FAM[cls][2]:
            o = m.origin
            later = [t for t in grid if o < t]
            for t in later:
                if cls == 'ZeroRateCurve':
                    ctx.close(r.get_discount_factor(t),
                              ref.exp(-m(t) * m.dc(o, t)),
                              '%s: discount factor %s', what, t)
                elif cls == 'DiscountFactorCurve':
                    ctx.close(r.get_discount_factor(t), m(t),
                              '%s: discount factor %s', what, t)
                elif cls == 'FlatIntensityCurve':
                    ctx.close(r.get_survival_prob(t),
                              ref.exp(-m(t) * m.dc(o, t)),
                              '%s: survival %s', what, t)
                elif cls in ('SurvivalProbabilityCurve',
                             'DefaultProbabilityCurve'):
                    ctx.close(r.get_survival_prob(t), m(t),
                              '%s: survival %s', what, t)
                elif cls == 'TerminalVolatilityCurve':
                    ctx.close(r.get_terminal_vol(t), m(t),
                              '%s: vol %s', what, t)

    def finish(self, ctx, what):
        o, m = self.other, self.model0
        grid = [d for d, _ in m.points]
        ctx.ok(sorted(o.domain) == sorted(grid), '%s: other domain', what)
        ts = grid + self.qs[1:7:2]
        if self.last is not None:
            ts = [t for t in ts if t <= max(grid)]
        ctx.close(list(o(ts)), [m(t) for t in ts],
                  '%s: other curve changed', what)
        dom, data, cdom, cdata = self.inputs
        ctx.ok(list(dom) == cdom and list(data) == cdata,
               '%s: input lists changed', what)


def grow(sc, ctx):
    """long histories"""
    p = Pair(sc)
    values = [v for x in (0, 1) for v in vals(sc['cls'], 9, x)[1]]
    hist = []
    k = sc['grow']
    order = MANY[k] + MANY[k][::-3] + MANY[k][:5]
    for i, j in enumerate(order):
        d = p.pts[j]
        if i % 7 == 5:
            d = p.qs[i % len(p.qs)]
        v = values[(i + len(order) // 3 * (i // len(MANY[k]))) % len(values)]
        ops = [('put', twin(d) if i % 2 else d, v)]
        if i % 8 == 7 and sc['cls'] != 'Curve':
            ops += [('fix', p.pts[order[i - 3]], v)]
        if i % 8 == 2 and p.sc['cls'] != 'Curve':
            ops += [('unfix', p.pts[order[i - 6]])]
        if i == 12 and sc['cls'] != 'Curve':
            ops += [('fix', p.pts[j], values[(i + j) % len(values)])
                    for j in range(0, 20, 2)]
        if i % 9 == 4 and FAM[sc['cls']][2]:
            ops += [('spread', 0), ('spread', 1 + i % 2)]
        for op in ops:
            p.step(op, ctx)
            hist.append(op)
        ctx.state(i)
        p.check(ctx, 'after %d edits like %s' % (len(hist), op))
    p.finish(ctx, '%d edits' % len(hist))
    ctx.trace()


def run(sc, ctx):
    if 'grow' in sc:
        return grow(sc, ctx)
    n = len(Pair(sc).ops())
    if sc['first'] >= n:
        return
    if sc['first'] == 0:
        p = Pair(sc)
        p.check(ctx, 'initial')
        p.finish(ctx, 'initial')
    for rest in itertools.product(range(n), repeat=sc['depth'] - 1):
        p = Pair(sc)
        hist = []
        for k in (sc['first'],) + rest:
            op = p.ops()[k]
            hist.append(op)
            p.step(op, ctx)
            if len(hist) < sc['depth'] and not ctx.state(tuple(hist)):
                continue  # prefix was checked before
            p.check(ctx, hist)
        m = p.model
        ctx.state(sorted(m.points), sorted(m.fix.items()),
                  m.spread and sorted(m.spread.points))
        p.finish(ctx, hist)
        ctx.trace()
    ctx.sample({'history': hist, 'grid': m.points})
