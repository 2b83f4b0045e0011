"""C22 rating classes"""
import itertools
from math import exp, log

LEVEL = 'exploration'
RULE = ('every master scale (default ones, by names, by all decreasing and '
        'mixed assignments of probabilities to up to four grades) x all '
        'grades, neighbours, geometric and arithmetic points between grades '
        'and beyond the ends: vector of weights (range, sum, neighbours only '
        'and probability reproduced), name, value, order, refusal outside or, if '
        'sloppy, the share of the nearest grade')
BOUNDS = {'scales': 'all assignments of 5 probabilities to 2 to 4 grades, 3 '
          'default scales, by name 2 to 12, 20 and 60 grades, orders of '
          '21 grades',
          'probabilities': '13 per pair of neighbours'}
ASSUMPTIONS = ['weights are rounded to 7 digits']
PD = (1e-6, 0.002, 0.03, 0.25, 1.0)


def scenarios(tier):
    yield {'scale': 'LONG_MASTER_SCALE'}
    yield {'scale': 'MASTER_SCALE'}
    yield {'scale': 'SHORT_MASTER_SCALE'}
    for n in range(2, 13):
        yield {'names': n}
        yield {'names': n, 'value': 0.01}
    for n in (20, 60):
        for v in (1e-12, 1e-4, 0.01):
            yield {'names': n, 'value': v}
    many = [1e-5 * 1.7 ** i for i in range(21)]
    for k in range(21):  # rotated and reversed
        yield {'dict': tuple(many[k:] + many[:k])}
        yield {'dict': tuple(many[k::-1] + many[:k:-1])}
    for k in range(6):  # tiny ones
        tiny = [10. ** -(3 * i) for i in range(6)]
        yield {'dict': tuple(tiny[k:] + tiny[:k])}
        yield {'dict': tuple(tiny[k::-1] + tiny[:k:-1])}
    for n in (2, 3, 4):
        for p in itertools.permutations(PD, n):
            yield {'dict': p}
    yield {'none': 1}


def run(sc, ctx):
    from dcf import ratingclass as rc
    R = rc.RatingClass
    if 'none' in sc:
        for v in (0., 0.1, 1., 1e-9):
            x = R(v)
            ctx.ok(float(x) == v and x.value == v, 'value')
            ctx.ok(x.masterscale is None or not x.masterscale, 'no scale')
        ctx.raises(TypeError, lambda: R('A'), 'no grade without scale')
        ctx.raises(TypeError, lambda: R('Z', ('A', 'B', 'D')), 'no grade')
        ctx.ok(float(R()) == 0., 'default')
        return
    if 'dict' in sc:
        p = list(sc['dict'])
        names = 'WXYZ'[:len(p)] if len(p) < 5 else \
            ['N%d' % i for i in range(len(p))]
        d = dict(zip(names, p))
        arg = d
    else:
        names = getattr(rc, sc['scale']) if 'scale' in sc else \
            tuple('G%d' % i for i in range(sc['names']))
        arg = names
        n = len(names)
        low = sc.get('value', 10. ** -(n - 1))
        d = {k: exp(log(low) * (1 - i / (n - 1.)))
             for i, k in enumerate(names)}
        if 'value' in sc:
            arg = R.master_scale.fromkeys(names, low)
    order = sorted(d, key=lambda k: d[k])
    x = R(d[order[0]], arg)
    scale = x.masterscale
    ctx.ok(list(scale.keys()) == order, 'grades %s', list(scale.keys()))
    ctx.close(list(scale.values()), [d[k] for k in order], 'probabilities')
    ctx.ok([k for k, _ in scale.items()] == order, 'items')
    classes = scale.rating_classes()
    ctx.close([float(c) for c in classes], [d[k] for k in order], 'classes')
    for i, k in enumerate(order):
        for c in (R(k, arg), R(k, scale), scale.get(k), classes[i],
                  R(d[k], arg)):
            w = [1. if i == j else 0. for j in range(len(order))]
            ctx.close(list(c), w, 'vector of grade %s', k)
            ctx.close(float(c), d[k], 'probability of %s', k)
            ctx.ok(str(c) == k and c.name == k, 'name %s of %s', c, k)
            ctx.close(c.vector, w, 'vector')
            ctx.close(c.value, d[k], 'value')
    ctx.ok(scale.get('unknown', 7) == 7, 'default of get')
    last = None
    for i, (a, b) in enumerate(zip(order, order[1:])):
        lo, hi = d[a], d[b]
        vals = [lo + (hi - lo) * w for w in
                (.001, .01, .125, .25, .5, .75, .875, .99, .999)]
        vals += [(lo * hi) ** .5, lo * (hi / lo) ** .1, lo * (hi / lo) ** .9]
        for v in sorted(vals):
            r = R(v, scale)
            w = [0.] * len(order)
            w[i + 1] = (v - lo) / (hi - lo)
            w[i] = 1. - w[i + 1]
            got = list(r)
            ctx.close(got, w, 'vector of %s', v, rel=0, abs_=1.1e-7)
            ctx.ok(all(0. <= y <= 1. for y in got), 'range of %s', got)
            ctx.close(sum(got), 1., 'sum', abs_=1e-12)
            ctx.close(sum(y * d[k] for y, k in zip(got, order)), v,
                      'mixture', rel=0, abs_=1.1e-7 * hi)
            ctx.ok(str(r) not in order, 'name of mixture %s', r)
            ctx.ok(a in str(r) or w[i] < 1e-7, 'name %s', r)
            ctx.ok(b in str(r) or w[i + 1] < 1e-7, 'name %s', r)
            ctx.ok(float(r) == v, 'value')
            # heavier weights on worse grades
            if last:
                c, e = 0., 0.
                for y, z in zip(last[::-1], got[::-1]):
                    c, e = c + y, e + z
                    ctx.ok(c <= e + 2.2e-7, 'order of vectors')
            last = got
            ctx.case(v)
    for v in (d[order[0]] * .5, d[order[-1]] * 1.5, 0.):
        ctx.raises(ValueError, lambda: list(R(v, scale)), 'outside %s', v)
    # beyond the scale: share of the nearest grade
    class Sloppy(R):
        SLOPPY = True
    lo, hi = d[order[0]], d[order[-1]]
    n = len(order)
    for v in (lo * .5, lo * .999, 0., hi * 1.5, hi * 1.001, lo, hi,
              lo + (hi - lo) * .3):
        w = list(R(v, scale)) if lo <= v <= hi else [0.] * n
        if v < lo:
            w[0] = v / lo
        elif hi < v:
            w[-1] = v / hi
        for a in (scale, arg):
            r = Sloppy(v, a)
            ctx.close(list(r), w, 'sloppy vector of %s', v, rel=0,
                      abs_=1.1e-7)
            ctx.close(r.vector, w, 'sloppy vector of %s', v, rel=0,
                      abs_=1.1e-7)
            ctx.ok(float(r) == v, 'sloppy value')
        ctx.case('sloppy', v)
    twin(R, order, d, ctx)
    ctx.sample({'scale': str(d)})


def twin(R, order, d, ctx):
    """same names, other probabilities: scales do not mix"""
    n = len(order)
    low = d[order[0]] * .5
    other = {k: low + (d[k] - d[order[0]]) * .25 for k in order}
    back = dict(zip(order, list(d.values())[::-1]))
    for new in (other, back, d, other):
        s = R.master_scale(new)
        for arg in (dict(new), s):
            for k in order:
                ctx.close(float(R(k, arg)), new[k], 'grade %s of twin', k)
                r = R(new[k], arg)
                ctx.ok(str(r) == k, 'name %s of %s in twin', r, k)
                ctx.close(list(r), [1. * (k == j) for j in sorted(
                    new, key=lambda j: new[j])], 'vector of %s in twin', k)
            ctx.close(list(R(new[order[0]], arg).masterscale.values()),
                      sorted(new.values()), 'probabilities of twin')
        ctx.case('twin', n)
