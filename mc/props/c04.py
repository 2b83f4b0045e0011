"""C04 curves are reproduced by their keyword arguments"""
from datetime import timedelta

from ..alpha import act360, bent, axis, twin
from ..fam import FAM, edits, make, vals
from ..rates import RRate
from ..ref import RCurve

LEVEL = 'exploration'
RULE = ('every curve class x axis x grid x origin x day count x '
        'interpolation (default, by name, by function, scheme class, tuple) '
        'x tenor x yield of the lists below, plain and after edits of '
        'points: class(**kwargs) compared with the original and with an '
        'independent model at all grid and query dates, twice in a row; '
        'later edits of either curve')
BOUNDS = {'grids': '1 to 4 dates incl. unsorted, 120 dates',
          'interpolations': '8 per class'}
ASSUMPTIONS = ['curves without spread and fixings (both are set after '
               'construction)']
GRIDS = [(1,), (0, 3), (3, 1, 2), (5, 1, 3, 0)]
LONG = tuple(range(120, 0, -1))
VARS = ('default', 'name', 'scheme', 'alias', 'func', 'class', 'tuple', 'ip1',
        'origin', 'mid', 'zero', 'dc', 'tenor', 'all', 'own', 'owndc', 'mimic',
        'digits', 'ownsub')
TENOR = {'float': 0.75, 'int': 2, 'date': timedelta(200), 'bd': '7M'}


def scenarios(tier):
    for cls in FAM:
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for g in GRIDS + [LONG]:
                for var in VARS:
                    if g == LONG and var not in ('default', 'name', 'dc'):
                        continue
                    if cls == 'Curve' and var in ('origin', 'mid', 'zero',
                                                  'dc', 'tenor', 'all',
                                                  'owndc'):
                        continue
                    if var == 'zero' and ax in ('date', 'bd'):
                        continue
                    ys = ('none', 'num', 'rate') if cls == 'ForwardCurve' \
                        else ('none',)
                    for y in ys:
                        yield {'cls': cls, 'axis': ax, 'grid': g, 'var': var,
                               'yield': y}


def interpolations(var, cls):
    """-> (argument, model)"""
    import dcf.interpolation as ip
    if var in ('own', 'ownsub'):
        return 'my own', 'nearest'
    pos = FAM[cls][1] != 'rate'
    if var in ('name', 'all'):
        return ('loglinear' if pos else 'linear',) * 2
    if var == 'scheme':
        k = 'log_linear_rate_scheme' if pos else 'zero_linear_scheme'
        return k, k
    if var == 'alias':
        k = 'constant_loglinear_constant' if pos else \
            'constant_linear_constant'
        return getattr(ip, k), k
    if var == 'func':
        return ip.nearest, 'nearest'
    if var == 'class':
        return (ip.log_linear_scheme, 'log_linear_scheme') if pos else \
            (ip.zero_linear_scheme, 'zero_linear_scheme')
    if var == 'tuple':
        def right_linear_zero(x, y):
            return ip.interpolation_scheme(
                x, y, (ip.right, ip.linear, ip.constant))
        return right_linear_zero, ('right', 'linear', 'constant')
    if var == 'mimic':
        # own function with the name of another one of the library
        def linear(x, y):
            return ip.nearest(x, y)
        return linear, 'nearest'
    return 'right', 'right'


def run(sc, ctx):
    import dcf
    import dcf.interpolation as ip
    # names may be registered by users
    try:
        if sc['var'] == 'own':
            dcf.Curve.INTERPOLATIONS['my own'] = ip.nearest
        if sc['var'] == 'owndc':
            dcf.DateCurve.DAY_COUNT['my own'] = bent
            dcf.DateCurve.DAY_COUNT['other'] = act360
        explore(sc, ctx)
    finally:
        dcf.Curve.INTERPOLATIONS.pop('my own', None)
        dcf.DateCurve.DAY_COUNT.clear()


def explore(sc, ctx):
    import dcf
    cls, ax, var = sc['cls'], sc['axis'], sc['var']
    if len(sc['grid']) == 1 and 'log_linear_rate_scheme' in (
            FAM[cls][0] if var not in VARS[1:8] + ('all', 'own', 'mimic', 'ownsub') else None,
            interpolations(var, cls)[1]) and var not in ('origin', 'mid'):
        return  # no rate at all
    pts, qs = axis(ax, 2.0 if var == 'zero' else 0.0,
                   120 if sc['grid'] == LONG else 0)
    grid = [pts[i] for i in sc['grid']]
    data, meant = vals(cls, len(grid), len(grid) % 100)
    if var == 'digits':
        data = [x / 3.7e5 if FAM[cls][1] == 'rate' else x / 3.7 for x in data]
        meant = [1. - x for x in data] if FAM[cls][1] == 'default' else data
    kw, mk = {}, {'kind': FAM[cls][0], 'dc': None}
    from ..ref import tau
    dc, origin = tau, grid[0]
    if cls == 'Curve':
        origin = 0.0
        dc = lambda s, e: float(e) - float(s)  # noqa: E731
    if var in VARS[1:8] + ('all', 'own', 'mimic', 'ownsub'):
        kw['interpolation'], mk['kind'] = interpolations(var, cls)
    if var in ('origin', 'all'):
        kw['origin'] = origin = pts[0]
    if var == 'mid':
        kw['origin'] = origin = twin(pts[2])
    if var == 'zero':
        kw['origin'] = origin = 0.0 if ax == 'float' else 0
    if var in ('dc', 'all'):
        kw['day_count'] = dc = bent
    if var == 'owndc' or var == 'ownsub' and cls != 'Curve':
        kw['day_count'], dc = 'my own', bent
    if var in ('tenor', 'all') and FAM[cls][2]:
        kw['forward_tenor'] = TENOR[ax]
    flat = dcf.ZeroRateCurve([pts[0]], [0.03])
    flat2 = dcf.ZeroRateCurve([pts[0]], [0.01])
    if sc['yield'] == 'num':
        kw['yield_curve'] = 0.0625
    if sc['yield'] == 'rate':
        kw['yield_curve'] = flat
    if cls == 'FxForwardCurve':
        kw.update(domestic_curve=flat, foreign_curve=flat2)
    if FAM[cls][2]:
        def new(p):
            return RRate(cls, p, origin, mk['kind'], dc)
    else:
        def new(p):
            return RCurve(p, mk['kind'], origin, dc)
    c = type_of(sc)(grid, data, **kw)
    m = new(list(zip(grid, meant)))
    compare(sc, ctx, c, m, pts, qs, kw, 'new')
    v, w = edits(cls)
    for d, x in ((pts[2], v), (grid[-1], w), (pts[0], v)):
        c[d] = x
        m = m.put(d, x)
        ctx.trans()
        compare(sc, ctx, c, m, pts, qs, kw, 'edited')
    ctx.sample({'kwargs': sorted(c.kwargs)})


def type_of(sc):
    """class of dcf or one of a user with own names"""
    import dcf
    import dcf.interpolation as ip
    cls = getattr(dcf, sc['cls'])
    if sc['var'] == 'ownsub':
        cls = type('Own' + sc['cls'], (cls,), {
            'INTERPOLATIONS': {'my own': ip.nearest},
            'DAY_COUNT': {'my own': bent}})
    return cls


def compare(sc, ctx, c, m, pts, qs, kw, what):
    import dcf
    cls = sc['cls']
    k = c.kwargs
    k2 = c.kwargs
    new = type_of(sc) if sc['var'] != 'ownsub' else type(c)
    clone = new(**k)
    both = [('clone', clone), ('clone of clone', type(clone)(**clone.kwargs)),
            ('second clone', new(**dict(k2)))]
    grid = sorted(d for d, _ in m.points)
    ts = grid + pts[::2] + qs[::2]
    if 'Forward' in cls:
        ts = [t for t in ts if t <= grid[-1]]
    want = []
    for t in list(ts):
        try:
            y = m(t)
        except OverflowError:
            y = 1e300
        if abs(y) > 1e100:
            ts.remove(t)
        else:
            want.append(y)
    orig = list(c(ts))
    ctx.close(orig, want, '%s: original', what)
    for name, d in both:
        ctx.ok(type(d) is type(c), '%s: type of %s', what, name)
        ctx.ok(sorted(d.domain) == grid, '%s: domain of %s', what, name)
        ctx.close(list(d(ts)), want, '%s: %s at %s', what, name, ts)
        if cls != 'Curve':
            ctx.ok(d.origin == m.origin, '%s: origin of %s: %s', what, name,
                   d.origin)
            ctx.close(d.day_count(pts[1], pts[4]), m.dc(pts[1], pts[4]),
                      '%s: day count of %s', what, name)
        if FAM[cls][2]:
            ctx.ok(d.forward_tenor == c.forward_tenor, '%s: tenor of %s',
                   what, name)
            if 'forward_tenor' in kw:
                ctx.ok(d.forward_tenor == kw['forward_tenor'],
                       '%s: tenor of %s', what, name)
        if 'Forward' in cls:
            for t in (pts[6], qs[-1]):
                ctx.close(d(t), c(t), '%s: forward of %s at %s', what, name,
                          t)
        names = set(d.kwargs)
        ctx.ok(names == set(k), '%s: kwargs of %s: %s', what, name, names)
        ctx.case(what, name, sc['var'], str(ts))
    # clone and original are independent
    v, w = edits(cls)
    clone[grid[0]] = w
    ctx.close(list(c(ts)), orig, '%s: original changed with clone', what)
    other = new(**c.kwargs)
    ctx.close(list(other(ts)), orig, '%s: clone changed with clone', what)
    # new points, too
    for x in (pts[3], qs[1], pts[5]):
        if x in grid:
            continue
        copy = new(**other.kwargs)
        other[x] = v
        ctx.ok(sorted(copy.domain) == grid and x not in copy,
               '%s: dates of clone changed with original', what)
        ctx.close(list(copy(ts)), orig, '%s: clone changed with original',
                  what)
        for name, d in both[1:]:
            ctx.ok(sorted(d.domain) == grid, '%s: dates of %s', what, name)
        ctx.ok(sorted(c.domain) == grid, '%s: dates of original', what)
        ctx.close(list(c(ts)), orig, '%s: original changed', what)
        other = copy
