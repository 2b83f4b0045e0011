"""C13 basis point value and bucketed delta"""
import itertools
from datetime import timedelta

from ..alpha import axis, twin
from ..flows import OFF, TENOR, normal_call
from ..rates import RRate
from ..ref import RCurve, tau

LEVEL = 'exploration'
RULE = ('every kind of cashflow list (fixed, floating, collar, option, legs) '
        'x discount curve x forward curve (own, or the discount curve '
        'itself) x delta curve (default, discount, forward, both as list or '
        'tuple) x shift x valuation date: basis point value and, for every '
        'grid of up to the given number of dates in sorted and unsorted '
        'order (and the default grid), every bucket is compared with '
        'independent present values on independently shifted curves; buckets '
        'sum up to the basis point value')
BOUNDS = {'grids': 'all subsets of 1 to 3 out of 6 dates, all orders; '
          'reversed and rotated grids of 4 to 6 and of about 17 dates',
          'shifts': 4}
ASSUMPTIONS = ['delta curves are curves of rates (zero, cash or short rates)',
               'accuracy 1e-7 of the normal distribution for options']
KINDS = 'fixed', 'float', 'off', 'collar', 'option', 'legs'
DELTA = 'none', 'disc', 'fwd', 'both', 'tuple'
SHIFTS = 1e-4, 1e-2, 1e-6, -1e-4


def scenarios(tier):
    quick = tier == 'quick'
    n = 0
    for ax in ('float', 'int', 'date', 'bd'):
        for kind in KINDS:
            for cv in ('zero', 'flat', 'cash'):
                for own in (True, False):
                    for delta in DELTA:
                        if own and delta in ('fwd', 'both', 'tuple') or \
                                kind == 'fixed' and delta == 'fwd':
                            continue
                        for sh in SHIFTS:
                            n += 1
                            if quick and n % 4 != (n // 4) % 4:
                                continue
                            yield {'axis': ax, 'kind': kind, 'curve': cv,
                                   'own': own, 'delta': delta, 'shift': sh,
                                   'all': not quick, 'phase': n % 7}


def curve(name, ax, pts):
    import dcf
    g = {'zero': [pts[1], pts[3], pts[5]], 'flat': [pts[0]],
         'cash': [pts[0], pts[2], pts[4], pts[5]],
         'fwd': [pts[4], pts[0], pts[2]]}[name]
    z = [0.02, 0.035, 0.01, 0.03][:len(g)]
    cls = 'CashRateCurve' if name == 'cash' else 'ZeroRateCurve'
    ten = {'float': 0.5, 'int': 2, 'date': TENOR['date'], 'bd': '6M'}[ax] \
        if name == 'cash' else TENOR[ax]
    c = getattr(dcf, cls)(g, z, origin=twin(pts[0]), forward_tenor=ten)
    return c, RRate(cls, zip(g, z), pts[0], tenor=ten)


def one(kind, ax, pts, dates, fwd, scale=1.):
    """-> real list, cf(forward model, date, valuation)"""
    import dcf
    n = len(dates)
    am = [scale * x for x in (100., -50., 1e4, 25.)[:n]]
    per = dict(zip(dates, zip([pts[0]] + dates[:-1], dates)))
    a = dict(zip(dates, am))
    off = OFF[ax] if kind == 'off' else None
    if kind == 'fixed':
        return dcf.FixedCashFlowList(dates, am), lambda m, d, v: a[d]
    if kind in ('float', 'off'):
        real = dcf.RateCashFlowList(
            dates, am, origin=pts[0], fixed_rate=0.01, forward_curve=fwd,
            fixing_offset=off)

        def cf(m, d, v):
            s, e = per[d]
            x = s
            if off:
                from ..flows import shift
                x = shift(s, off)
            return a[d] * tau(s, e) * (0.01 + m.cash(x, x + m.tenor))
        return real, cf
    model = dcf.models.NormalOptionPayOffModel(pts[0], fwd, 0.01)
    if kind == 'collar':
        real = dcf.ContingentRateCashFlowList(
            dates, am, origin=pts[0], fixed_rate=0.005, cap_strike=0.03,
            floor_strike=0.015, payoff_model=model)

        def cf(m, d, v):
            s, e = per[d]
            t, f = tau(v, s), m.cash(s, s + m.tenor)
            y = 0.005 + f - normal_call(t, 0.03, f, 0.01) + \
                normal_call(t, 0.015, f, 0.01) + 0.015 - f
            return a[d] * tau(s, e) * y
        return real, cf
    if kind == 'option':
        real = dcf.OptionCashflowList(dates, am, 0.02, payoff_model=model)

        def cf(m, d, v):
            return a[d] * normal_call(
                tau(v, d), 0.02, m.cash(d, d + m.tenor), 0.01)
        return real, cf
    x, f = one('fixed', ax, pts, dates, fwd, scale)
    y, g = one('float', ax, pts, dates, fwd, scale)
    z, h = one('collar', ax, pts, dates[1:], fwd, scale)
    real = dcf.CashFlowLegList([x, dcf.CashFlowLegList([y, z])])

    def cf(m, d, v):
        return f(m, d, v) + g(m, d, v) + (h(m, d, v) if d in dates[1:] else 0)
    return real, cf


def hat(grid, k, shift):
    g = sorted(grid)
    return RCurve([(d, shift if d == grid[k] else 0.0) for d in g],
                  'linear_scheme', g[0])


def run(sc, ctx):
    import dcf
    ax, sh = sc['axis'], sc['shift']
    pts, qs = axis(ax)
    disc, mdisc = curve(sc['curve'], ax, pts)
    if sc['own']:
        fwd, mfwd = disc, mdisc
    else:
        fwd, mfwd = curve('fwd', ax, pts)
    dates = [pts[i] for i in (1, 2, 4, 5)]
    scale = {1: 1e4, 4: -1e4}.get(sc['phase'], 1.)
    real, cf = one(sc['kind'], ax, pts, dates, fwd, scale)
    delta = {'none': None, 'disc': disc, 'fwd': fwd, 'both': [disc, fwd],
             'tuple': (fwd, disc)}[sc['delta']]
    sd = sc['delta'] != 'fwd' or sc['own']
    sf = sc['delta'] in ('fwd', 'both', 'tuple') or sc['own']

    def pv(v, s=None):
        d = mdisc.with_(spread=s) if s and sd else mdisc
        f = mfwd.with_(spread=s) if s and sf else mfwd
        return sum(d.df(v, x) * cf(f, x, v) for x in dates if v <= x)

    opt = sc['kind'] in ('collar', 'option', 'legs')
    size = 1e-4 / abs(sh)
    eps = 2e4 * (3e-7 * (0.2 if ax == 'int' else 0.02) if opt else 1e-13) * \
        size * abs(scale) + 1e-10
    kw = {} if delta is None else {'delta_curve': delta}
    if sh != 1e-4:
        kw['shift'] = sh
    vals = [pts[0], qs[3] if ax != 'int' else qs[2], pts[2]]
    points = sorted(set(pts[:6] if ax == 'int' else pts[:5] + [qs[5]]))
    grids = []
    for n in (1, 2, 3):
        grids += [list(g) for g in itertools.permutations(points, n)]
    if not sc['all']:
        grids = grids[sc['phase']::7]
    for n in (4, 5, 6):
        g = points[:n]
        grids += [g, g[::-1], g[2:] + g[:2], g[1::2] + g[::2]]
    # many dates
    g = sorted(d for d in set(pts + qs) if pts[0] <= d)
    if sc['phase'] in (0, 3):  # very many
        a, b = axis(ax, many=26)
        g = sorted(d for d in set(a + b) if pts[0] <= d)
        if ax != 'int' and sc['phase']:  # close to each other
            a, b = pts[0], tau(pts[0], pts[5])
            g = sorted(set([a + timedelta(int(b * 365.25 * k / 40))
                            if ax != 'float' else a + b * k / 40
                            for k in range(40)] + [pts[5]]))
    many = [g, g[::-1], g[5:] + g[:5], g[1::2] + g[::2]]
    grids += many if sc['all'] else [many[sc['phase'] % 4]]
    if sc['delta'] != 'both' and sc['delta'] != 'tuple':
        grids.append(None)
    default = list((delta or disc).domain) if not isinstance(
        delta, (list, tuple)) else list(disc.domain)
    for iv, v in enumerate(vals):
        base = pv(v)
        w = (pv(v, RCurve([(pts[0], sh)], 'linear_scheme', pts[0])) - base)
        w *= 1e-4 / sh
        bpv = dcf.get_basis_point_value(real, disc, twin(v), **kw)
        ctx.close(bpv, w, 'basis point value on %s', v, abs_=eps, rel=1e-7)
        ctx.case('bpv', v)
        for ig, g in enumerate(grids):
            if iv and ig % 5 != iv:
                continue
            k2 = dict(kw)
            if g is not None:
                k2['delta_grid'] = g
            got = dcf.get_bucketed_delta(real, disc, v, **k2)
            g = g or default
            ctx.ok(len(got) == len(g), 'number of buckets')
            ctx.ok(isinstance(got, (tuple, list)), 'type')
            for k in range(len(g)):
                w = (pv(v, hat(g, k, sh)) - base) * 1e-4 / sh
                ctx.close(got[k], w, 'bucket %s of %s on %s', g[k], g, v,
                          abs_=eps, rel=1e-7)
            # second order: shift * value * time**2
            t = 1 + tau(pts[0], pts[5])
            ctx.close(sum(got), bpv, 'sum of buckets of %s on %s', g, v,
                      abs_=4 * eps * len(g) + abs(sh * scale) * 1e-4 * 2e4 * t * t *
                      (30 if opt else 1))
            ctx.case(str(g), v)
        if v == pts[0]:
            ctx.ok(abs(dcf.get_basis_point_value(real, disc, **kw) - bpv)
                   <= 1e-9 * (1 + abs(bpv)), 'default valuation date')
    ctx.sample({'bpv': bpv, 'grids': len(grids)})
