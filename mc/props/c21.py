"""C21 compounding and day count"""
import itertools
from math import exp, log

from ..alpha import DATES, QUERY, axis

LEVEL = 'exploration'
RULE = ('every compounding function x rate x time x frequency: documented '
        'formula, inverse gives back rate and factor, one for no time, '
        'monotone in rate, multiplicative in time; default day count over '
        'all triples of dates of all date types: exact days, additive, '
        'antisymmetric, the same for equal points of other date types')
BOUNDS = {'lattice': '17 rates x 16 times x 7 frequencies',
          'dates': 'all triples of 19 dates per type'}
ASSUMPTIONS = ['1 + r t > 0 resp. 1 + r / m > 0']
RATES = (0.0, 1e-6, 0.001, 0.01, 0.05, 0.5, 1.0, 3.0, -1e-6, -0.001, -0.01,
         -0.05, -0.3, -0.5, 10.0, -0.6, -0.95)
TIMES = (1 / 365.25, 0.01, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 5.0, 10.0, 30.0,
         50.0, 0.1, 1e-4, 120., 400.)
NAMED = {'annually': 1, 'semi': 2, 'quarterly': 4, 'monthly': 12,
         'daily': 365}
FREQ = (1, 2, 3, 4, 12, 52, 365)


def scenarios(tier):
    for r in RATES:
        yield {'rate': r, 'fine': tier != 'quick'}
    for ax in ('float', 'int', 'date', 'bd'):
        yield {'axis': ax}
    yield {'mixed': 1, 'all': tier != 'quick'}


def run(sc, ctx):
    if 'rate' in sc:
        return comp(sc['rate'], ctx)
    import dcf
    from dcf.daycount import DAYS_IN_YEAR, day_count
    if 'mixed' in sc:
        return mixed(ctx, day_count)
    pts, qs = axis(sc['axis'])
    pts = sorted(pts + qs)
    days = sc['axis'] in ('date', 'bd')
    for a in pts:
        ctx.ok(day_count(a, a) == 0, 'no time')
        for b in pts:
            t = day_count(a, b)
            ctx.ok(isinstance(t, float), 'type')
            if days:
                x = b.to_date() if hasattr(b, 'to_date') else b
                y = a.to_date() if hasattr(a, 'to_date') else a
                ctx.close(t, (x.toordinal() - y.toordinal()) / 365.25,
                          'days from %s to %s', a, b, rel=1e-14)
            else:
                ctx.close(t, b - a, 'from %s to %s', a, b, rel=1e-14)
            ctx.close(day_count(b, a), -t, 'antisymmetric', rel=1e-14)
            ctx.ok((t > 0) == (a < b), 'sign')
            for c in pts:
                ctx.close(t + day_count(b, c), day_count(a, c), 'additive',
                          rel=1e-13, abs_=1e-13)
            ctx.case(str(a), str(b))
            # curves use it
    c = dcf.DateCurve(pts[:3], [0., 1., 2.], origin=pts[1])
    for a, b in itertools.product(pts[:8], repeat=2):
        ctx.close(c.day_count(a, b), day_count(a, b), 'curve day count',
                  rel=1e-14)
        ctx.close(c.day_count(a), day_count(pts[1], a), 'curve day count',
                  rel=1e-14)
    ctx.close(DAYS_IN_YEAR, 365.25, 'days in year')
    ctx.sample({'dates': str(pts[:3])})


def mixed(ctx, day_count):
    from datetime import date, datetime

    from businessdate import BusinessDate
    ds = DATES + QUERY + ((1901, 1, 1), (1999, 12, 31), (2098, 7, 6),
                          (2198, 2, 28))
    for a, b in itertools.product(ds, ds):
        x = day_count(date(*a), date(*b))
        for y in (day_count(BusinessDate(*a), BusinessDate(*b)),
                  day_count(datetime(*a), datetime(*b))):
            ctx.close(y, x, 'types', rel=1e-14)
        ctx.close(x, (date(*b).toordinal() - date(*a).toordinal()) / 365.25,
                  'days', rel=1e-14)
        ctx.case(a, b)
    n = 800
    d = date(2023, 12, 1).toordinal()
    for i in range(n):  # each day, incl. leap day, years and month ends
        a, b = date.fromordinal(d), date.fromordinal(d + i)
        ctx.close(day_count(a, b), i / 365.25, 'day %s', b, rel=1e-14)
        ctx.close(day_count(BusinessDate(a.year, a.month, a.day),
                            BusinessDate(b.year, b.month, b.day)),
                  i / 365.25, 'day %s', b, rel=1e-14)
        ctx.case(i)


def fine(r, t, m):
    """within floating point numbers"""
    return abs(log(1 + r / m) * m * t) < 600


def comp(r, ctx):
    from dcf import compounding as c
    for t in TIMES:
        if 1 + r * t > 0:
            x = c.simple_compounding(r, t)
            ctx.close(x, 1 / (1 + r * t), 'simple %s', t, rel=1e-14)
            ctx.close(c.simple_rate(x, t), r, 'simple rate %s', t, rel=1e-9,
                      abs_=4e-16 / t / x)
            ctx.close(c.simple_compounding(c.simple_rate(x, t), t), x,
                      'simple', rel=1e-12)
            ctx.ok((x < 1) == (r > 0) or r == 0, 'side of one')
        if abs(r * t) > 600:
            continue
        x = c.continuous_compounding(r, t)
        if x > 1e-200:
            ctx.close(x, exp(-r * t), 'continuous %s', t, rel=1e-14)
            ctx.close(c.continuous_rate(x, t), r, 'continuous rate %s', t,
                      rel=1e-9, abs_=4e-16 / t)
            for s in TIMES:
                if abs(r * (s + t)) > 600:
                    continue
                ctx.close(x * c.continuous_compounding(r, s),
                          c.continuous_compounding(r, s + t), 'product',
                          rel=1e-12)
        for m in FREQ:
            if not 1 + r / m > 0 or not fine(r, t, m):
                continue
            x = c.periodic_compounding(r, t, m)
            ctx.close(x, (1 + r / m) ** (-t * m), 'periodic %s %s', t, m,
                      rel=1e-13 + 5e-16 * t * m)
            ctx.close(c.periodic_rate(x, t, m), r, 'periodic rate %s %s', t,
                      m, rel=1e-9, abs_=1e-15 / t + 1e-15 * m)
            for s in TIMES:
                if not fine(r, s, m) or not fine(r, s + t, m):
                    continue
                ctx.close(x * c.periodic_compounding(r, s, m),
                          c.periodic_compounding(r, s + t, m), 'product',
                          rel=1e-12 + 1e-15 * m * (s + t))
            ctx.case(t, m)
        for k, m in NAMED.items():
            if 1 + r / m > 0 and fine(r, t, m):
                f = getattr(c, k + '_compounding')
                ctx.close(f(r, t), (1 + r / m) ** (-t * m), '%s %s', k, t,
                          rel=1e-13 + 5e-16 * t * m)
                ctx.ok(f(r, 0.0) == 1.0, 'no time')
        if r > -1:
            ctx.close(c.annually_compounding(r, 1.), 1 / (1 + r), 'one year')
    ctx.ok(c.simple_compounding(r, 0.) == 1., 'no time')
    ctx.ok(c.continuous_compounding(r, 0.) == 1., 'no time')
    # integer arguments
    if r == int(r):
        ctx.close(c.periodic_compounding(int(r), 2, 4),
                  (1 + r / 4) ** -8, 'integer arguments')
        ctx.close(c.simple_compounding(int(r), 2), 1 / (1 + 2 * r), 'int') \
            if 1 + 2 * r > 0 else None
    ctx.sample({'rate': r})
