"""C03 arithmetic of curves"""
import itertools
import operator
from datetime import timedelta

from .. import ref
from ..alpha import MANY, bent, axis, subsets, twin
from ..fam import FAM, make, model, rkind
from ..ref import RCurve

LEVEL = 'model_checking'
RULE = ('all expression histories a op b and (a op b) op a for all pairs of '
        'grids out of 4 points (every subset of up to 3, plus unsorted '
        'ones), all four operators, curve classes, axes, interpolations, day '
        'counts and origins; lockstep with a model of the result curve')
BOUNDS = {'grids': '15 x 15 of sorted subsets, 3 unsorted, 5 x 5 with up to '
          '21 dates', 'depth': '2 (quick: depth 2 for every third pair of grids)'}
ASSUMPTIONS = ['both operands have the same origin, no spreads or fixings',
               'divisor without zeros at the grid']
CLS = ('Curve', 'DateCurve', 'ZeroRateCurve', 'DiscountFactorCurve',
       'CashRateCurve', 'ShortRateCurve', 'FlatIntensityCurve',
       'HazardRateCurve', 'TerminalVolatilityCurve',
       'InstantaneousVolatilityCurve')
OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul,
           div=operator.truediv)
TENOR = {'float': 0.25, 'int': 1, 'date': timedelta(91), 'bd': None}
INTERP = {'rate': (None, 'constant', 'linear'), 'df': (None, 'linear', None),
          'vol': (None, 'nearest', 'zero_linear_scheme')}


def scenarios(tier):
    for cls in CLS:
        for ax in ('float', 'bd', 'date', 'int'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for cfg in range(5):
                for op in OPS:
                    yield {'cls': cls, 'axis': ax, 'cfg': cfg, 'op': op,
                           'depth': 2 if tier != 'quick' or
                           ax in ('float', 'bd') and cfg != 2 else 1,
                           'thin': tier == 'quick'}
    for cls in CLS:  # many dates
        for ax in ('float', 'bd', 'date', 'int'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for cfg in range(4):
                for op in OPS:
                    yield {'cls': cls, 'axis': ax, 'cfg': cfg, 'op': op,
                           'depth': 1, 'thin': False, 'many': 44}
    for left in ('ZeroRateCurve', 'FlatIntensityCurve'):
        for ax in ('float', 'bd', 'date', 'int'):
            yield {'mix': left, 'axis': ax, 'right': 'DateCurve'}
    for left, right in (('ZeroRateCurve', 'DiscountFactorCurve'),
                        ('DiscountFactorCurve', 'ZeroRateCurve'),
                        ('FlatIntensityCurve', 'SurvivalProbabilityCurve')):
        yield {'mix': left, 'axis': 'bd', 'right': right}


def data(cls, n, k):
    kind = FAM[cls][1]
    if kind == 'rate':
        a = [(0.02, 0.05, -0.01, 0.04), (0.01, -0.03, 0.02, 0.005)][k]
    elif kind == 'df':
        a = [(1.0, 0.97, 0.9375, 0.875), (0.5, 0.375, 0.4, 0.25)][k]
    else:
        a = [(0.4, 0.25, 0.3, 0.35), (0.1, 0.2, 0.05, 0.15)][k]
    a = (a * n)[:n]
    return [x * .97 ** i for i, x in enumerate(a)] if n > 4 else list(a)


def build(cls, ax, cfg, k, idx, pts):
    dom = [pts[i] for i in idx]
    kw, mk = {}, {}
    ip = INTERP[FAM[cls][1]]
    if cls != 'Curve':
        kw['origin'] = mk['origin'] = twin(pts[1])
        if cfg == 3 and k == 0:
            kw['day_count'] = mk['dc'] = bent
        if FAM[cls][2]:
            kw['forward_tenor'] = TENOR[ax]
        if cfg == 4:
            kw['origin'] = mk['origin'] = pts[0]
    if cfg == 1 and k == 1 or cfg == 2 and k == 0:
        kw['interpolation'] = mk['interpolation'] = ip[1]
    if cfg == 2 and k == 1:
        kw['interpolation'] = mk['interpolation'] = ip[2]
    d = data(cls, len(dom), k)
    if cfg == 4 and k and FAM[cls][1] == 'rate':
        d[-1] = 0.0
    return make(cls, dom, d, **kw), model(cls, dom, d, **mk), kw


def calc(op, a, b, cls, kw):
    """model of the result"""
    grid = sorted(set([d for d, _ in a.points] + [d for d, _ in b.points]))
    return RCurve([(d, OPS[op](a(d), b(d))) for d in grid],
                  rkind(cls, kw.get('interpolation')), a.origin, a.dc)


def mix(sc, ctx):
    left, right, ax = sc['mix'], sc['right'], sc['axis']
    pts, qs = axis(ax)
    for ia, ib in itertools.product(subsets((1, 2, 3, 5), 1, 3), repeat=2):
        a, ma, _ = build(left, ax, 0, 0, ia, pts)
        grid = [pts[i] for i in ib]
        if FAM[right][1] in ('df', 'prob') and a.origin in grid or \
                FAM[left][1] == 'df' and ia == (1,):
            continue
        d = data('DiscountFactorCurve' if FAM[right][1] in ('df', 'prob')
                 else right, len(grid), 1)
        b = make(right, grid, d, origin=pts[1])
        if right == 'DateCurve':
            want = dict(zip(grid, d))
        elif left == 'ZeroRateCurve':
            want = {x: b.get_zero_rate(x) for x in grid}
        elif left == 'FlatIntensityCurve':
            want = {x: b.get_flat_intensity(x) for x in grid}
        else:
            want = {x: b.get_discount_factor(x) for x in grid}
        for op in OPS:
            if op == 'div' and (any(abs(y) < 1e-3 for y in d) or
                                right == 'DateCurve'):
                continue
            if op == 'sub' and left == 'DiscountFactorCurve':
                continue
            c = OPS[op](a, b)
            ctx.trans()
            ctx.ok(type(c) is type(a), 'type')
            ctx.ok(c.origin == a.origin, 'origin')
            ctx.ok(set(c.domain) >= set(a.domain) | set(grid), 'domain')
            for x in grid:
                ctx.close(c(x), OPS[op](ma(x), want[x]), '%s %s %s at %s',
                          left, op, right, x)
            ctx.state(op, ia, ib)
        ctx.close(list(b(grid)), d, 'operand changed')
        ctx.trace()


def run(sc, ctx):
    if 'mix' in sc:
        return mix(sc, ctx)
    cls, ax, op, cfg = sc['cls'], sc['axis'], sc['op'], sc['cfg']
    pts, qs = axis(ax, many=sc.get('many', 0))
    idx = list(subsets((1, 2, 3, 5), 1, 3))
    if cfg == 4:
        idx = [(5, 1, 3), (3, 2), (1, 5), (2, 3, 1), (2,)]
    if 'many' in sc:
        idx = list(MANY) + [(2, 15), tuple(range(2, 31, 3)),
                            tuple(range(1, 46, 2)) + (0, 40, 8)]
    for k, (ia, ib) in enumerate(itertools.product(idx, idx)):
        thin = sc['thin'] and (k + list(OPS).index(op)) % 3
        a, ma, kw = build(cls, ax, cfg, 0, ia, pts)
        b, mb, kwb = build(cls, ax, cfg, 1, ib, pts)
        if FAM[cls][1] == 'df' and [ma.origin] in (
                [d for d, _ in ma.points], [d for d, _ in mb.points]):
            continue  # no rate at all
        one(sc, ctx, cls, op, a, b, ma, mb, kw, pts, qs, (ia, ib),
            sc['depth'] if thin else 1)
        for c, m in ((a, ma), (b, mb)):  # operands stay as they are
            g = [d for d, _ in m.points]
            ctx.ok(sorted(c.domain) == sorted(g), 'operand domain changed')
            ctx.close(list(c(g)), [m(d) for d in g], 'operand changed')
        ctx.trace()


def one(sc, ctx, cls, op, a, b, ma, mb, kw, pts, qs, what, depth=1):
    grid = sorted(set(d for m in (ma, mb) for d, _ in m.points))
    if op == 'div' and any(abs(mb(d)) < 1e-7 for d in grid):
        if depth == 1 and not any(y for _, y in mb.points):
            ctx.raises(ZeroDivisionError, lambda: a / b, 'zero division')
        return
    mc = calc(op, ma, mb, cls, kw)
    if FAM[cls][1] == 'df' and any(y <= 0 for _, y in mc.points) and \
            not kw.get('interpolation'):
        return
    c = OPS[op](a, b)
    ctx.trans()
    ctx.state(op, [(str(d), round(y, 9)) for d, y in mc.points])
    ctx.ok(type(c) is type(a), '%s: type %s', what, type(c))
    ctx.ok(sorted(c.domain) == grid, '%s: domain %s', what, c.domain)
    ctx.close(list(c(grid)), [OPS[op](ma(d), mb(d)) for d in grid],
              '%s: %s on grid %s', what, op, grid)
    try:
        want = [mc(q) for q in qs]
    except (OverflowError, ZeroDivisionError):
        want = []
    if want and all(abs(w) < 1e50 for w in want):
        ctx.close([c(q) for q in qs], want, '%s: %s at %s', what, op, qs)
    if cls != 'Curve':
        ctx.ok(c.origin == ma.origin, '%s: origin %s', what, c.origin)
        ctx.close(c.day_count(pts[2], pts[5]), ma.dc(pts[2], pts[5]),
                  '%s: day count', what)
        if FAM[cls][2]:
            ctx.ok(c.forward_tenor == a.forward_tenor, '%s: tenor', what)
    if depth < sc['depth']:
        for op2 in OPS:
            one(sc, ctx, cls, op2, c, a, mc, ma, kw, pts, qs,
                (what, op, op2), depth + 1)
            one(sc, ctx, cls, op2, b, c, mb, mc, bkw(b), pts, qs,
                (what, op, op2, 'right'), depth + 1)


def bkw(b):
    # interpolation given to b
    return {'interpolation': b.kwargs.get('interpolation')}
