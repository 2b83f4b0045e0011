"""C25 integral and derivative of curves"""
from .. import fam
from ..alpha import MANY, act360, axis, subsets, twin
from ..ref import quad_close

LEVEL = 'exploration'
RULE = ('every date curve class x grid x interpolation x origin x day count '
        'x date type x spread (none, curve, curve with other origin): '
        'average between every ordered pair of dates (both directions) '
        'against exact areas of a model, additivity over all triples; slope '
        'at all dates (business dates) against the slope of the model')
BOUNDS = {'grids': 'all subsets of 1 to 3 (thorough 4) out of 6 dates, 2 '
          'grids of 15 and 21 dates',
          'pairs': 'all ordered pairs of 9 dates, triples of these'}
ASSUMPTIONS = ['numerical integration is accurate to 1e-6 except of jumps '
               'within 0.3 percent of the end of a period resp. away from '
               'points of the domain', 'forward prices till the last date']
INTER = (None, 'linear', 'constant', 'log_linear_scheme', 'nearest',
         'zero_linear_scheme', 'right', 'log_linear_rate_scheme')
LONG = tuple(range(0, 80))  # more points than sub-intervals
CLS = [k for k in fam.FAM if k != 'Curve' and not k.startswith('Fx')]


def scenarios(tier):
    n = 0
    for k, cls in enumerate(CLS):
        for ax in ('float', 'int', 'date', 'bd'):
            for idx in list(subsets(range(6), 1, 3 if tier == 'quick'
                                    else 4)) + list(MANY[:2]) + [LONG]:
                n += 1
                if tier == 'quick' and (n + k) % 5 and len(idx) < 7:
                    continue
                yield {'cls': cls, 'axis': ax, 'idx': idx, 'n': n,
                       'all': tier != 'quick'}


def run(sc, ctx):
    pts, qs = axis(sc['axis'], many=24 * (len(sc['idx']) > 7) + 60 * (
        len(sc['idx']) > 50))
    cls, n = sc['cls'], sc['n']
    grid = [pts[i] for i in sc['idx']]
    data, v = fam.vals(cls, len(grid), n % 100)
    cases = [(i, o, d) for i in INTER for o in range(3)
             for d in (None, act360)]
    mod = 12 if sc['all'] else 16
    cases = [c for k, c in enumerate(cases) if k % mod == n % mod]
    for inter, org, dc in cases:
        o = (None, twin(pts[1]), qs[0])[org]
        kind = fam.rkind(cls, inter)
        if 'log' in kind and min(v) <= 0:
            continue
        if kind == 'log_linear_rate_scheme' and any(
                (o or grid[0]) == d for d in grid) and len(grid) == 1:
            continue
        if kind in ('linear', 'right') and len(grid) == 1:
            continue
        c = fam.make(cls, grid, data, interpolation=inter, origin=o,
                     day_count=dc)
        m = fam.model(cls, grid, v, o, inter, dc)
        one(sc, ctx, c, m, pts, qs, (inter, org))
        if fam.FAM[cls][2]:
            g, w = [pts[2], pts[0], pts[4]], [0.01, -0.02, 0.005]
            for so in (None, qs[1]):
                x = fam.make(cls, grid, data, interpolation=inter, origin=o,
                             day_count=dc)
                x.spread = fam.make('DateCurve', g, w, origin=so,
                                    day_count=dc)
                s = fam.model('DateCurve', sorted(g),
                              [-0.02, 0.01, 0.005], so, None, dc)
                one(sc, ctx, x, m.with_(spread=s), pts, qs,
                    (inter, org, so))
        ctx.case(inter, org, dc)


def one(sc, ctx, c, m, pts, qs, what):
    ds = sorted(pts[:6] + qs[1:10:3])
    if len(pts) > 40:
        ds = sorted(pts[:6:2] + qs[1:4:2] + pts[-1:])
    last = max(d for d, _ in m.points)
    if sc['cls'] == 'ForwardCurve':
        ds = [d for d in ds if d <= last]
    got = {}
    for s in ds:
        for t in ds:
            if s == t:
                continue
            got[s, t] = c.integrate(s, t)
            if max(abs(m(s)), abs(m(t))) > 1e4:
                continue
            ctx.ok(isinstance(got[s, t], float), 'type')
            ctx.trans()
            quad_close(ctx, got[s, t], m, s, t, '%s: average from %s to %s',
                       what, s, t)
    for s, t, u in zip(ds, ds[1:], ds[3:]):
        if max(abs(m(s)), abs(m(u))) > 1e4:
            continue
        a = got[s, t] * m.dc(s, t) + got[t, u] * m.dc(t, u)
        b = got[s, u] * m.dc(s, u)
        ctx.close(a, b, 'additive', rel=5e-3, abs_=0.02 * m.dc(s, u) * max(
            abs(x) for x in m.ys))
    ctx.sample({'curve': sc['cls'], 'dates': str(ds[:2])})
    if sc['axis'] != 'bd':
        return
    for d in ds:
        if d >= last and sc['cls'] == 'ForwardCurve':
            continue
        y, z = m(d - '1d'), m(d)
        w = m(d + '1d')
        h = m.dc(d, d + '1d')
        lo, hi = sorted(((z - y) / h, (w - z) / h))
        e = 1e-7 + 0.01 * max(abs(lo), abs(hi))
        x = c.derivative(d)
        ctx.ok(lo - e <= x <= hi + e, '%s: derivative at %s: got %r, '
               'expected %r to %r', what, d, x, lo, hi)

