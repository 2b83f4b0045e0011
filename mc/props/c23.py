"""C23 volatility curves"""
from math import sqrt

from ..alpha import MANY, bent, axis, positives, subsets, twin
from ..ref import RCurve, quad_close, tau

LEVEL = 'exploration'
RULE = ('both volatility curves x every grid x interpolation x origin x day '
        'count x date type: every ordered pair of dates against variances '
        'resp. areas of a model; every cast between both onto grids of '
        'given dates and (business dates) onto the default grid; with spread and '
        'with floors of the class')
BOUNDS = {'grids': 'all subsets of 1 to 3 (thorough 4) out of 6 dates, 3 '
          'grids of 15 to 21 dates',
          'pairs': 'all ordered pairs of 12 dates'}
ASSUMPTIONS = ['numerical integration is accurate to 1e-6 '
               'except of jumps within 0.3 percent of the end of a period',
               'a volatility at a date needs dates which know a day']
T, I = 'TerminalVolatilityCurve', 'InstantaneousVolatilityCurve'
INTER = (None, 'linear', 'constant', 'log_linear_scheme', 'nearest',
         'zero_linear_scheme')


def scenarios(tier):
    n = 0
    for cls in (T, I):
        for ax in ('float', 'int', 'date', 'bd'):
            for idx in list(subsets(range(6), 1, 3 if tier == 'quick'
                                    else 4)) + list(MANY):
                for org in ('first', 'given', 'early'):
                    n += 1
                    yield {'cls': cls, 'axis': ax, 'idx': idx, 'origin': org,
                           'key': n % 5, 'inter': n % 6,
                           'all': tier != 'quick'}


def run(sc, ctx):
    import dcf
    pts, qs = axis(sc['axis'], many=24 if len(sc['idx']) > 7 else 0)
    grid = [pts[i] for i in sc['idx']]
    o = {'first': None, 'given': twin(pts[1]), 'early': qs[0]}[sc['origin']]
    inters = INTER if sc['all'] else [INTER[sc['inter']], None][:1 + (
        sc['inter'] > 0)]
    for inter in inters:
        for dc in (None, bent):
            v = [0.05 + 0.1 * x for x in positives(len(grid), sc['key'])]
            c = getattr(dcf, sc['cls'])(
                grid, v, interpolation=inter, origin=o, day_count=dc)
            m = RCurve(zip(grid, v), inter or 'linear_scheme',
                       grid[0] if o is None else o, dc or tau)
            one(sc, ctx, c, m, pts, qs)
            ctx.case(inter, dc)
            if dc and inter:
                continue
            # added spread
            w = [0.01, -0.02, 0.03]
            g = [pts[3], pts[0], pts[5]]
            c.spread = dcf.DateCurve(g, w, origin=qs[1], day_count=dc)
            one(sc, ctx, c, m.with_(spread=RCurve(
                zip(g, w), 'linear_scheme', qs[1], dc or tau)), pts, qs)
            c.spread = None
            ctx.case(inter, dc, 'spread')
            if sc['cls'] == T:
                for f in (0.0, 0.12, 10.):
                    c.__class__ = type(T, (dcf.TerminalVolatilityCurve,),
                                       {'FLOOR': f})
                    floor(ctx, c, m, sorted(pts[:6] + qs[:6]), f,
                          sc['axis'] == 'bd')
                    ctx.case(inter, dc, f)
    # casts
    cast(sc, ctx, dcf, grid, v, o, pts, qs)


def terminal(m, s, t):
    """volatility of terminal volatilities or None if there is no"""
    if s == m.origin:
        return m(t)
    a, b = m.dc(m.origin, s) * m(s) ** 2, m.dc(m.origin, t) * m(t) ** 2
    var = (b - a) / m.dc(s, t)
    if var < -1e-12:
        return None
    return sqrt(max(var, 0.)) if var > 1e-12 else False


def one(sc, ctx, c, m, pts, qs):
    ds = sorted(pts[:6] + qs[:6])
    bd = sc['axis'] == 'bd'
    term = sc['cls'] == T
    for t in ds:
        if term:
            ctx.close(c.get_terminal_vol(t), m(t), 'terminal at %s', t)
            ctx.close(c.get_terminal_vol(twin(m.origin), t), m(t),
                      'terminal from origin at %s', t)
            if bd and t != m.origin:
                inst(ctx, lambda: c.get_terminal_vol(t, twin(t)), m, t)
            if bd:
                inst(ctx, lambda: c.get_instantaneous_vol(t), m, t)
        else:
            ctx.close(c.get_instantaneous_vol(t), m(t), 'vol at %s', t)
            ctx.close(c.get_terminal_vol(t, twin(t)), m(t), 'at %s', t)
            if m.origin < t:
                quad_close(ctx, c.get_terminal_vol(t), m, m.origin, t,
                           'average vol till %s', t)
        for s in ds:
            if s > t and s != m.origin:
                ctx.ok(c.get_terminal_vol(s, t) == 0., 'reversed dates')
            if not s < t:
                continue
            ctx.trans()
            if not term:
                quad_close(ctx, c.get_terminal_vol(s, t), m, s, t,
                           'average vol from %s to %s', s, t)
                continue
            w = terminal(m, s, t)
            if w is None:
                ctx.raises(ZeroDivisionError,
                           lambda: c.get_terminal_vol(s, t),
                           'negative variance from %s to %s', s, t)
            elif w is not False:
                ctx.close(c.get_terminal_vol(s, t), w,
                          'forward vol from %s to %s', s, t, rel=1e-8)
                if m.origin < s:
                    x = c.get_terminal_vol(t) ** 2 * m.dc(m.origin, t)
                    y = c.get_terminal_vol(s) ** 2 * m.dc(m.origin, s) + \
                        c.get_terminal_vol(s, t) ** 2 * m.dc(s, t)
                    ctx.close(y, x, 'variances add up')
    ctx.sample({'grid': str(c.domain), 'date': str(ds[-1])})


def floor(ctx, c, m, ds, f, bd):
    o = m.origin
    for t in ds:
        ctx.close(c.get_terminal_vol(t), m(t), 'terminal at %s', t)
        ctx.close(c.get_terminal_vol(twin(o), t), m(t), 'from origin')
        for s in ds:
            if s == o or not s < t:
                if t < s != o:
                    ctx.ok(c.get_terminal_vol(s, t) == 0., 'reversed dates')
                continue
            check_floor(ctx, c.get_terminal_vol(s, t), m, s, t, f)
        if bd and t != o:
            check_floor(ctx, c.get_instantaneous_vol(t), m, t, t + '1d', f)


def check_floor(ctx, got, m, s, t, f):
    var = (m.dc(m.origin, t) * m(t) ** 2 -
           m.dc(m.origin, s) * m(s) ** 2) / m.dc(s, t)
    ctx.close(got, sqrt(max(var, f * f)), 'floored vol from %s to %s', s, t,
              rel=1e-7, abs_=1e-6 if abs(var) < 1e-8 else 1e-12)


def inst(ctx, f, m, t):
    w = terminal(m, t, t + '1d')
    if w is None:
        ctx.raises(ZeroDivisionError, f, 'negative variance at %s', t)
    elif w is not False:
        ctx.close(f(), w, 'instantaneous at %s', t, rel=1e-7)


def cast(sc, ctx, dcf, grid, v, o, pts, qs):
    # not decreasing volatilities have no negative variances
    up = dict(zip(sorted(grid), sorted(v)))
    v = [up[d] for d in grid]
    c = getattr(dcf, sc['cls'])(grid, v, origin=o)
    m = RCurve(zip(grid, v), 'linear_scheme', c.origin)
    for sub in ([pts[1]], [pts[2], pts[4]], [qs[1], pts[0], pts[3]]):
        for cls in (T, I):
            sub = [d for d in sub if d > m.origin]
            if not sub or cls == I and sc['cls'] == T and sc['axis'] != 'bd':
                continue
            x = getattr(dcf, cls)(list(sub), c)
            ctx.ok(x.origin == c.origin, 'origin of cast')
            ctx.ok(set(x.domain) == set(sub), 'domain of cast')
            for d in sub:
                if cls == T and sc['cls'] == T:
                    ctx.close(x.get_terminal_vol(d), m(d),
                              'cast of terminal at %s', d)
                elif cls == T:
                    quad_close(ctx, x.get_terminal_vol(d), m, m.origin, d,
                               'cast to terminal at %s', d)
                else:
                    w = m(d) if sc['cls'] == I else terminal(m, d, d + '1d')
                    ctx.close(x.get_instantaneous_vol(d), w,
                              'cast %s to %s at %s', sc['cls'], cls, d,
                              rel=1e-6)
    if sc['axis'] != 'bd' or c.origin > min(grid):
        return
    for cls in (T, I):
        x = getattr(dcf, cls)(c)
        y = getattr(dcf, cls)(c)
        ctx.ok(x.origin == c.origin, 'origin of cast')
        for d in sorted(set(grid + [c.origin])):
            ctx.ok(d in x.domain or d not in grid, 'date of domain lost')
            if d == c.origin and (cls == T or d in grid):
                continue
            if cls == T:
                ctx.close(x.get_terminal_vol(d), c.get_terminal_vol(d),
                          'cast to terminal at %s', d)
            else:
                ctx.close(x.get_instantaneous_vol(d),
                          c.get_instantaneous_vol(d),
                          'cast to instantaneous at %s', d)
            ctx.ok(x(d) == y(d), 'cast twice')
    for d in grid:
        ctx.close(c(d), m(d), 'cast changed the curve')
