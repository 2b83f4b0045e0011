"""C09 container of foreign exchange rates"""
import itertools

from ..alpha import axis
from ..ref import exp

LEVEL = 'model_checking'
RULE = ('all histories of adding, re-adding (new spot, new curve) and setting '
        'currencies up to the depth, plus refused additions, in lockstep '
        'with a model of spot rates and discount curves; after every step '
        'all pairs of currencies at all dates: rate, reverse rate, '
        'triangulation, per-currency view')
BOUNDS = {'depth': '3 (thorough 4)', 'operations': 12,
          'currencies': '4; 9 and 14 in histories of adding only'}
ASSUMPTIONS = ['curves with common dates, positive spot rates']
CUR = 'USD', 'EUR', 'JPY', 'GBP'


def scenarios(tier):
    for ax in ('float', 'date', 'bd'):
        for n in (8, 13):  # many currencies
            for again in range(n + 1):
                yield {'axis': ax, 'base': again % 2, 'many': n,
                       'again': again, 'depth': 0}
        for base in range(2):
            for k in range(12):
                for j in range(12):
                    yield {'axis': ax, 'base': base, 'first': (k, j),
                           'depth': 3 if tier == 'quick' else 4}


def ops(cur):
    a, b, c = cur[1:]
    return [('add', a, 0, 1.25), ('add', b, 1, 0.0066), ('add', c, 2, 2.0),
            ('add', a, 2, 0.81), ('add', b, 0, 151.37), ('add', c, 2, 0.3),
            ('set', a, 1, 1.75), ('set', c, 0, 3.0),
            ('int', a), ('curve', b), ('type', c), ('add', cur[0], 3, 1.0)]


def run(sc, ctx):
    import dcf
    pts, qs = axis(sc['axis'])
    o = pts[0]
    cur = CUR if not sc['base'] else CUR[1:] + CUR[:1]
    rates = 0.02, 0.035, -0.01, 0.05
    curves = [dcf.ZeroRateCurve([o], [r]) for r in rates[:3]]
    home = dcf.ZeroRateCurve([o], [rates[3]])
    curves.append(home)
    ts = [o, pts[2], pts[5], qs[-1]]
    tau = home.day_count
    al = ops(cur)

    def check(x, m, hist):
        for d, f in itertools.permutations(m, 2):
            rd, sd = m[d]
            rf, sf = m[f]
            for t in ts:
                w = sf / sd * exp((rf - rd) * tau(o, t))
                ctx.close(x.get_forward_price(d, f, t), w,
                          '%s: %s/%s at %s', hist, d, f, t)
                ctx.close(x[d, f](t), w, '%s: curve %s/%s', hist, d, f)
                ctx.close(x[d, f](t) * x[f, d](t), 1., '%s: reverse %s/%s',
                          hist, d, f)
            v = x[d]
            ctx.ok(set(v) | {d} == set(m), '%s: view of %s: %s', hist, d, set(v))
            ctx.close(v[f](ts[1]), x[d, f](ts[1]), '%s: view', hist)
            for e in set(m) - {d, f}:
                ctx.close(x[d, f](ts[2]) * x[f, e](ts[2]), x[d, e](ts[2]),
                          '%s: triangulation %s %s %s', hist, d, f, e)
        ctx.ok(set(k for k in x if k[0] != k[1]) ==
               set(itertools.permutations(m, 2)), '%s: pairs', hist)
        for t in ts:
            ctx.close(x.get_forward_price(cur[0], cur[0], t), 1., 'base')

    if 'many' in sc:
        n = sc['many']
        x, m = dcf.FxContainer(cur[0], home), {cur[0]: (rates[3], 1.0)}
        order = [(7 * i + sc['again']) % n for i in range(n)]
        for i in order + [sc['again'] % n, order[2]][:sc['again']]:
            f, k, s = 'C%02d' % i, i % 4, 0.5 + i / 8.
            if f in m:
                s *= 3.
            x.add(f, curves[k], s)
            m[f] = rates[k], s
            ctx.trans()
            ctx.state(len(m), f)
        check(x, m, 'many currencies %s' % order)
        ctx.trace()
        return

    for rest in itertools.product(range(len(al)), repeat=sc['depth'] - 2):
        x = dcf.FxContainer(cur[0], home)
        y = dcf.FxContainer(cur[0], home)
        m = {cur[0]: (rates[3], 1.0)}
        hist = []
        for k in tuple(sc['first']) + rest:
            op = al[k]
            hist.append(op)
            if op[0] == 'add':
                if op[1] == cur[0]:
                    x.add(cur[0], home)
                else:
                    x.add(op[1], curves[op[2]], op[3])
                m[op[1]] = rates[op[2]], op[3]
            elif op[0] == 'set':
                x[op[1]] = dcf.FxForwardCurve(
                    [o], [op[3]], domestic_curve=home,
                    foreign_curve=curves[op[2]])
                m[op[1]] = rates[op[2]], op[3]
            elif op[0] == 'int':
                ctx.raises((AssertionError, TypeError), lambda: x.add(
                    op[1], curves[0], 'x'), 'bad spot')
                for bad in (0.0, -2.0):
                    ctx.raises(Exception, lambda: x.add(
                        op[1], curves[0], bad), 'spot %s', bad)
            elif op[0] == 'curve':
                ctx.raises((AssertionError, TypeError, AttributeError),
                           lambda: x.add(op[1], 0.02, 2.0), 'bad curve')
                ctx.raises(Exception, lambda: x.add(op[1], None, 2.0),
                           'no curve')
                fx = dcf.FxForwardCurve([o], [9.0], domestic_curve=curves[0],
                                        foreign_curve=curves[1])
                ctx.raises(Exception, lambda: x.__setitem__(op[1], fx),
                           'curve of other domestic curve')
            else:
                ctx.raises((AssertionError, TypeError), lambda: x.add(
                    3, curves[0], 2.0), 'bad currency')
                fx = dcf.FxForwardCurve([o], [9.0], domestic_curve=home,
                                        foreign_curve=curves[1])
                for key in (3, (op[1], 3), (3, op[1])):
                    ctx.raises(Exception, lambda: x.__setitem__(key, fx),
                               'bad key %s', key)
                ctx.raises(Exception, lambda: x.__setitem__(
                    (cur[0], op[1]), curves[1]), 'no fx curve')
            ctx.trans()
            if ctx.state(hist):
                check(x, m, hist)
        check(y, {cur[0]: (rates[3], 1.0)}, 'other container')
        ctx.trace()
    ctx.sample({'history': hist})
