"""C14 interest accrued"""
from ..alpha import MANY, axis, twin
from ..flows import KINDS, OFF, join, make
from ..ref import tau

LEVEL = 'exploration'
RULE = ('every kind of cashflow list x payment dates (1 to 5, also unsorted) '
        'x amounts x day count x offsets; all valuation dates (each period '
        'start and end, the days next to them, between, before, after, '
        'payment dates moved by offset): accrued interest compared with an '
        'independent model; legs add up; from zero to the full flow in each '
        'period; repeated calls')
BOUNDS = {'payment dates': '10 sets of 1 to 21 dates',
          'valuation dates': 'all of about 40 (120)'}
ASSUMPTIONS = ['contingent flows by their model as it is (its valuation '
               'date), accuracy 1e-7 of the normal distribution',
               'positive pay offset']
ZIGZAG = tuple(x for i in range(1, 12) for x in (i, i + 12))
SETS = [(1,), (1, 2, 4), (2, 3, 4, 5, 6), (4, 1, 3), (5, 2), (3, 6), (1, 2)]


def scenarios(tier):
    for ax in ('float', 'int', 'date', 'bd'):
        for kind in KINDS:
            for k, idx in enumerate(SETS):
                if kind == 'noorg' and list(idx) != sorted(idx):
                    continue
                for key in range(3 if tier == 'quick' else 6):
                    yield {'axis': ax, 'kind': kind, 'set': idx, 'key': key}
        for kind in KINDS:  # many periods at once
            if kind != 'noorg':
                yield {'axis': ax, 'kind': kind, 'set': ZIGZAG, 'key': 0}
        for kind in KINDS:  # many flows
            for k, idx in enumerate(MANY):
                if kind == 'noorg' and list(idx) != sorted(idx):
                    continue
                yield {'axis': ax, 'kind': kind, 'set': idx, 'key': k}
        for k1 in KINDS:
            for k2 in KINDS:
                yield {'axis': ax, 'kind': k1, 'other': k2, 'set': (1, 2, 4),
                       'key': 1}


def parts(leg):
    if 'legs' in leg.info:
        return [y for x in leg.info['legs'] for y in parts(x)]
    return [leg]


def accrued(leg, v, val):
    r = 0.0
    for x in parts(leg):
        for d, (s, e, a, _) in x.info.get('terms', {}).items():
            if s < v <= e and v <= d:
                r += x.cf(d, val) * x.info['dc'](s, v) / x.info['dc'](s, e)
    return r


def near_dates(ax, d):
    from datetime import timedelta
    if ax == 'float':
        return [d, d - 0.03125, d + 0.03125]
    if ax == 'int':
        return [d, d - 1, d + 1]
    if ax == 'date':
        return [d, d - timedelta(1), d + timedelta(1)]
    return [d, d - '1D', d + '1D']


def run(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=24 if max(sc['set']) > 6 else 0)
    idx = tuple(sc['set'])
    leg = make(sc['kind'], ax, pts, idx, sc['key'])
    if 'other' in sc:
        other = make(sc['other'], ax, pts, (2, 4, 5), 3)
        legs = [leg, other, join([leg, other]), join([other, leg, other])]
    else:
        legs = [leg]
    vals = set(qs)
    for d in pts:
        vals |= set(near_dates(ax, d))
    for x in legs:
        for p in parts(x):
            for s, e, _, f in p.info.get('terms', {}).values():
                vals |= {s, e, f}
                if s < e:
                    vals |= set(near_dates(ax, s) + near_dates(ax, e))
    vals = sorted(vals)
    first = []
    for v in vals + vals[::-1]:
        res = []
        for x in legs:
            w = accrued(x, v, pts[0])
            got = dcf.get_interest_accrued(x.real, twin(v))
            ctx.close(got, w, '%s on %s', x.kind, v, rel=x.tol,
                      abs_=x.tol * x.scale * (20 if ax == 'int' else 5) + 1e-12)
            ctx.case(x.kind, v, w)
            res.append(got)
        if len(res) > 1:
            s = sum(abs(y) for y in res) + 1
            ctx.close(res[2], res[0] + res[1], 'legs on %s', v, abs_=1e-9 * s)
            ctx.close(res[3], res[0] + 2 * res[1], 'legs on %s', v,
                      abs_=1e-9 * s)
        first.append(res)
    ctx.ok(first[:len(vals)] == first[:len(vals) - 1:-1], 'not repeatable')
    # whole flow at the end of a period, if only one period is running
    for x in legs[:1]:
        for p in parts(x):
            for d, (s, e, a, _) in p.info.get('terms', {}).items():
                if s < e and len(parts(x)) == 1 and \
                        list(sc['set']) == sorted(sc['set']):
                    ctx.close(dcf.get_interest_accrued(x.real, e),
                              x.real[d], 'end of period %s', e, rel=1e-9)
    ctx.sample({'kind': sc['kind'], 'dates': len(vals)})
