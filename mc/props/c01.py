"""C01 interpolation functions and schemes"""
import itertools

from .. import ref
from ..alpha import perms

LEVEL = 'exploration'
RULE = ('every interpolation function and scheme, built from every non-empty '
        'subset of the x alphabet with every assignment of the value alphabet '
        '(plus long grids), given in every order of points, as lists, tuples '
        'or dict, evaluated at all grid points, midpoints, ties, neighbours '
        'and outside; compared with an independent reference')
BOUNDS = {'x': '{-1.5,0,.25,1,2.5,4} up to 4 points (thorough 6), long grids '
               'of 9, 17, 33, 150 points, huge and tiny scale grids, not dyadic grids',
          'y': '4 values (positive ones for log functions)'}
ASSUMPTIONS = ['distinct x values; at least one x != 0 for log rate '
               'functions']

X = (-1.5, 0.0, 0.25, 1.0, 2.5, 4.0)
Y = (1.0, 0.5, -2.0, 0.0)
YP = (1.0, 0.5, 2.0, 0.03125)
ODD = ((1 / 3.,), (0.1, 1 / 3., 0.7), (-0.1, 0.0, 1 / 7., 3.14159265358979),
       (0.0, 1 / 3., 1 / 3. + 3e-5, 1 / 3. + 6e-5, 2 / 3.),
       (-1e-2 / 3, 1e-2 / 3, 12.3456789))  # not dyadic: no ties
FUNCS = ('left', 'constant', 'right', 'nearest', 'linear', 'no', 'zero',
         'loglinear', 'loglinearrate', 'logconstantrate')
MIDS = ('left', 'constant', 'right', 'nearest', 'linear', 'zero',
        'loglinear', 'loglinearrate', 'logconstantrate')


def grids(tier):
    for n in range(1, 5 if tier == 'quick' else 7):
        for g in itertools.combinations(X, n):
            yield g
    for n in (9, 17, 33, 150):
        yield tuple(i * 0.5 - 2.0 + (i % 3) * 0.125 for i in range(n))
        yield tuple(float(i) for i in range(n))
    yield (1e-6, 1.0, 1e6)
    yield (-1e4, -3.0, 1e-3, 5.0)
    for g in ODD:
        yield g


def scenarios(tier):
    for g in grids(tier):
        for f in FUNCS:
            yield {'grid': g, 'func': f}
        for s in ref.SCHEME:
            yield {'grid': g, 'scheme': s}
    gs = [(1.0,), (0.25, 2.5), (-1.5, 0.25, 4.0), (0.0, 1.0, 2.5, 4.0),
          (-1.5, 0.0, 0.25, 1.0, 4.0)]
    for g in gs if tier == 'quick' else list(grids('quick')):
        for m in MIDS:
            yield {'grid': g, 'tuple': [m]}
            for r in MIDS:
                yield {'grid': g, 'tuple': [m, r]}
                for le in ('left', 'zero', 'linear', 'loglinearrate',
                           'logconstantrate', 'right'):
                    yield {'grid': g, 'tuple': [le, m, r]}
    yield {'flat': 1}
    yield {'default': 1}


def queries(g):
    g = sorted(g)
    q = list(g)
    odd = any(x * 1024 % 1 for x in g)
    for a, b in zip(g, g[1:]):
        d = b - a
        if odd:
            q += [a + d * 0.4375, a + d * 0.25, a + d * 0.78125]
            continue
        q += [a + d * 0.5, a + d * 0.25, a + d * 0.75, a + d / 1024,
              b - d / 1024]
    q += [g[0] - 1.0, g[0] - 0.0078125, g[0] - 100., g[-1] + 0.0078125,
          g[-1] + 1.0, g[-1] + 100., 0.0, 3, -2]
    q += [x for x in (1e-7, -1e-7, 1e-9) if x not in g]
    return q


def ylists(kinds, n, small):
    pos = any(k in ref.LOG for k in kinds)
    al = YP if pos else Y
    if n <= (3 if small else 2):
        return list(itertools.product(al, repeat=n))
    res = []
    for k in range(4):
        res.append(tuple(al[(i * (k + 1) + k) % 4] for i in range(n)))
    res.append(tuple((YP if pos else Y)[0] * (i + 1) for i in range(n)))
    return res


def run(sc, ctx):
    import dcf.interpolation as ip
    if 'flat' in sc:
        for y in Y:
            for x in (-5, -1.5, 0, 0.0, 1, 2.25, 1e9):
                ctx.close(ip.flat(y)(x), y, 'flat(%s)(%s)', y, x)
                ctx.case(y, x)
        return
    if 'default' in sc:
        for d in (None, 42, -1.5):
            for xs in (X, X[::-1], X[2:]):
                f = ip.default_value_interpolation(xs, range(len(xs)), d)
                for x in queries(xs):
                    w = dict(zip(xs, map(float, range(len(xs))))).get(x, d)
                    ctx.close(f(x), w, 'default %s at %s', d, x)
                    ctx.case(d, xs, x)
        return
    g = tuple(sc['grid'])
    zero_only = not any(g)
    if 'func' in sc:
        kind = sc['func']
        kinds = kind,
        make = getattr(ip, kind)
        if any(k in ref.RATE for k in kinds) and zero_only:
            return
    elif 'scheme' in sc:
        kind = sc['scheme']
        kinds = ref.SCHEME[kind]
        make = getattr(ip, kind)
    else:
        t = sc['tuple']
        kind = tuple(['constant', t[0], 'constant'] if len(t) == 1 else
                     [t[1], t[0], t[1]] if len(t) == 2 else t)
        kinds = kind
        fs = tuple(getattr(ip, k) for k in t)
        arg = [fs, list(fs)]
        if len(t) == 1:
            arg.append(fs[0])

        def make(x, y, a=None):
            return ip.interpolation_scheme(x, y, a or arg[0])
    if any(k in ref.RATE for k in kinds) and zero_only:
        return
    allq = queries(g)
    small = 'tuple' not in sc
    for ys in ylists(kinds, len(g), small):
        qs, want = [], []
        for x in allq:
            try:
                w = ref.interp(kind, list(g), list(ys), x)
            except OverflowError:
                continue
            if w is None or abs(w) < 1e100 and (abs(w) > 1e-100 or not w):
                qs.append(x)
                want.append(w)
        pairs = list(zip(g, ys))
        fs = []
        ords = [pairs] if 'func' not in sc and 'scheme' not in sc \
            else perms(pairs)
        if 'func' not in sc:
            ords = [pairs]
        for p in ords:
            xl, yl = [a for a, _ in p], [b for _, b in p]
            cx, cy = list(xl), list(yl)
            f = make(xl, yl)
            fs.append(('list', f))
            ctx.ok(xl == cx and yl == cy, 'input lists changed by %s', kind)
        fs.append(('tuple', make(tuple(g), tuple(ys))))
        if 'tuple' in sc:
            fs += [('arg', make(g, ys, a)) for a in arg[1:]]
        if 'func' in sc:
            for p in perms(pairs)[:3]:
                fs.append(('dict', make.from_dict(dict(p))))
                for a in g if kind not in ref.RATE else ():
                    ctx.ok(a in fs[-1][1], 'grid point %s not contained', a)
                ctx.ok(g[-1] + 0.5 not in fs[-1][1], 'not a grid point')
        for how, f in fs:
            for x, w in zip(qs, want):
                ctx.close(f(x), w, '%s from %s %s %s at %s', kind, how, g,
                          ys, x)
            # asked in another order
            for x, w in list(zip(qs, want))[::-3]:
                ctx.close(f(x), w, '%s %s %s at %s again', kind, g, ys, x)
        for x, a in zip(g, ys):
            i = qs.index(x)
            ctx.close(want[i], a, 'reference honours grid point')
        for x in qs:
            ctx.case(kind, g, ys, x)
    ctx.sample({'kind': kind, 'x': g, 'y': ys, 'at': qs[-1],
                'value': want[-1]})
