"""C11 pricing functions leave their arguments as they were"""
from ..alpha import axis, bent
from ..flows import make

LEVEL = 'fault_enumeration'
RULE = ('every pricing function x kind of cashflow list x curves x option; '
        'first without fault, then with an error raised by the discount '
        'curve, by the forward curve resp. by the payoff model at the n-th '
        'call, for every n up to the number of calls of the run without '
        'fault; bounds that do not bracket and curves having a spread '
        'already; afterwards all observable state of all arguments and the '
        'present value are the same as before')
BOUNDS = {'faults': 'every call (thorough), in quick every call up to 60 and '
                    'every 7th after', 'payment dates': 3,
          'curves': 'rates, discount factors, fixings; four date types'}
ASSUMPTIONS = ['errors are raised by (user defined) curves and models']

FUNCS = ('pv', 'ytm', 'fair', 'accrued', 'bpv', 'bpv-list', 'delta',
         'delta-grid', 'delta-list', 'fit', 'fit-grid')
KINDS = ('fixed', 'rate', 'zero', 'collar', 'option', 'legs', 'nested',
         'mixed')


def scenarios(tier):
    for ax in ('float', 'bd', 'date') if tier != 'quick' else ('float', 'bd'):
        for f in FUNCS:
            for kind in KINDS:
                if f == 'fair' and kind not in ('rate', 'zero', 'collar',
                                                'mixed'):
                    continue
                for where in ('none', 'discount', 'forward', 'bounds',
                              'spread'):
                    if where == 'bounds' and f not in ('ytm', 'fair', 'fit',
                                                       'fit-grid'):
                        continue
                    if where == 'spread' and f in ('pv', 'accrued', 'fair',
                                                   'ytm'):
                        continue
                    if kind in ('collar', 'option') and where in (
                            'none', 'bounds', 'forward') and f != 'accrued':
                        yield {'axis': ax, 'func': f, 'kind': kind,
                               'fault': where, 'all': False, 'late': 1}
                    yield {'axis': ax, 'func': f, 'kind': kind,
                           'fault': where, 'all': tier != 'quick'}
    for ax in ('float', 'int', 'date', 'bd'):  # other curves
        for cur in CURVES:
            if cur == 'ShortRateCurve' and ax != 'bd':
                continue
            for f in FUNCS:
                for kind in ('rate', 'zero', 'collar', 'nested', 'mixed'):
                    for where in ('none', 'discount', 'forward', 'spread'):
                        if where == 'spread' and f in ('pv', 'accrued',
                                                       'fair', 'ytm'):
                            continue
                        if cur == 'ShortRateCurve' and (
                                where != 'none' or kind != 'rate' or
                                f in ('ytm', 'fair', 'fit', 'fit-grid')):
                            continue  # slow
                        if f == 'fair' and kind == 'nested' or where in (
                                'discount', 'forward') and (
                                ax != 'float' and cur == 'fixings'
                                or kind in ('collar', 'nested')):
                            continue
                        yield {'axis': ax, 'func': f, 'kind': kind,
                               'fault': where, 'all': False, 'cur': cur}


CURVES = ('fixings', 'DiscountFactorCurve', 'CashRateCurve',
          'ShortRateCurve')
TERMS = ('amount', 'fixed_rate', 'start', 'end', 'fixing_offset', 'expiry',
         'strike', 'is_put', 'cap_strike', 'floor_strike', 'day_count')


class Boom(Exception):
    pass


class Fuse(object):
    def __init__(self):
        self.count, self.at = 0, None

    def tick(self):
        self.count += 1
        if self.count == self.at:
            raise Boom()


def setup(sc, pts, fuse):
    import dcf
    ax = sc['axis']

    cur = sc.get('cur')
    base = dcf.ZeroRateCurve if cur in (None, 'fixings') else \
        getattr(dcf, cur)

    class Zero(base):
        def get_discount_factor(self, start, stop=None):
            if sc['fault'] == 'discount':
                fuse.tick()
            return super().get_discount_factor(start, stop)

    class Fwd(base if cur != 'DiscountFactorCurve' else dcf.CashRateCurve):
        def get_cash_rate(self, start, stop=None, step=None):
            if sc['fault'] == 'forward':
                fuse.tick()
            return super().get_cash_rate(start, stop, step)

    class Model(dcf.models.NormalOptionPayOffModel):
        def details(self, date, strike=None):
            if sc['fault'] == 'forward':
                fuse.tick()
            return super().details(date, strike)
    g = [pts[0], pts[3], pts[5]]
    from ..flows import TENOR
    disc = Zero(g, [0.01, 0.03, 0.02], origin=pts[0])
    fwd = Fwd(list(g), [0.01, 0.02, 0.04], origin=pts[0],
              forward_tenor=TENOR[ax])
    if cur:  # other classes, terms and data
        many = [pts[4], pts[0], pts[2], pts[1], pts[6], pts[5]]
        z = [0.01, 0.03, 0.02, 0.01, 0.0, 0.015]
        if cur == 'DiscountFactorCurve':
            z = [0.93, 1.0, 0.97, 0.99, 0.85, 0.92]
        kw = {'forward_tenor': TENOR[ax]}
        if cur != 'ShortRateCurve':
            kw['day_count'] = bent
        disc = Zero(many, z, 'nearest' if cur == 'fixings' else None, pts[0],
                    **kw)
        fwd = Fwd(sorted(many), [0.01, 0.02, 0.04, 0.0, 0.01, 0.01],
                  **kw)
        if cur == 'fixings':
            disc.fixings[pts[2]] = 0.07
            fwd.fixings[pts[2]] = 0.05
            fwd.fixings[pts[3]] = 0.03
    kind = sc['kind']
    if kind in ('rate', 'mixed'):
        dates = [pts[1], pts[2], pts[5]]
        real = dcf.RateCashFlowList(dates, [100., 50., 100.], origin=pts[0],
                                    fixed_rate=0.02, forward_curve=fwd)
        if kind == 'mixed':  # rates of periods differ
            for d, r in zip(dates, (0.01, 0.02, 0.04)):
                real.payoff(d).fixed_rate = r
        models = []
    else:
        leg = make(kind, ax, pts, (1, 2, 5), 3)
        real, models = leg.real, []
        for x in leaves(real):
            if getattr(x, 'payoff_model', None) is not None:
                o = x.payoff_model
                x.payoff_model = Model(o.valuation_date, o.forward_curve,
                                       o.volatility_curve)
                if sc.get('late'):  # not set by user: given by pricing
                    x.payoff_model.valuation_date = None
                models.append(x.payoff_model)
            if getattr(x, 'forward_curve', None) is not None:
                x.forward_curve = fwd
    other = dcf.ZeroRateCurve(list(g), [0.02, 0.0, 0.01], origin=pts[0])
    return real, disc, fwd, other, models


def leaves(x):
    if hasattr(x, 'legs'):
        return [z for y in x.legs for z in leaves(y)]
    return [x]


def snap(real, curves, models, pts, qs):
    res = []
    for x in leaves(real):
        m = getattr(x, 'payoff_model', None)
        res.append((list(x.domain), x.origin, id(m),
                    id(getattr(x, 'forward_curve', None)),
                    repr(getattr(x, 'fixed_rate', None))))
        for d in x.domain:
            p = x.payoff(d)
            res.append((id(p), p if isinstance(p, (int, float)) else [
                str(getattr(p, k, None)) for k in TERMS]))
    for c in curves:
        res.append((list(c.domain), [c(d) for d in c.domain],
                    [c(d) for d in qs[1:4]], c.origin, id(c.spread),
                    sorted(map(str, c.fixings.items())),
                    str(c.forward_tenor)))
    for m in models:
        res.append((m.valuation_date, id(m.forward_curve),
                    id(m.volatility_curve), m.day_count, m.bump_greeks))
    return res


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-13 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b


def call(sc, real, disc, fwd, other, v, pts):
    import dcf
    f = sc['func']
    bad = sc['fault'] == 'bounds'
    bounds = (0.19, 0.2) if bad else (-0.3, 0.6)
    if f == 'pv':
        return dcf.get_present_value(real, disc, v)
    if f == 'ytm':
        return dcf.get_yield_to_maturity(real, v, 1e-3, bounds=bounds)
    if f == 'fair':
        return dcf.get_fair_rate(real, disc, v, 0.25, bounds=bounds)
    if f == 'accrued':
        return dcf.get_interest_accrued(real, v)
    if f == 'bpv':
        return dcf.get_basis_point_value(real, disc, v)
    if f == 'bpv-list':
        return dcf.get_basis_point_value(real, disc, v, [other, disc, fwd])
    if f == 'delta':
        return dcf.get_bucketed_delta(real, disc, v)
    grid = [pts[1], pts[4], pts[6]]
    if f == 'delta-grid':
        return dcf.get_bucketed_delta(real, disc, v, fwd, grid)
    if f == 'delta-list':
        return dcf.get_bucketed_delta(real, disc, v, [disc, fwd, other], grid)
    pv = [dcf.get_present_value(real, disc, v) * (1. if not bad else 1e6)]
    if f == 'fit':
        return dcf.get_curve_fit([real], disc, v, present_value=pv,
                                 bounds=bounds)
    return dcf.get_curve_fit([real], disc, v, other, [pts[0], pts[6]], pv,
                             bounds=bounds)


def run(sc, ctx):
    import dcf
    pts, qs = axis(sc['axis'])
    fuse = Fuse()
    real, disc, fwd, other, models = setup(sc, pts, fuse)
    curves = [disc, fwd, other]
    v = pts[0] if 'cur' not in sc else pts[1]
    if sc['fault'] == 'spread':
        # a curve of the list or the curve itself has a spread already
        (disc if 'list' not in sc['func'] and 'grid' not in sc['func']
         else fwd if sc['func'] != 'fit-grid' else other).spread = \
            dcf.DateCurve([pts[0]], [0.005])
    before = snap(real, curves, models, pts, qs)
    fuse.at = None
    pv = dcf.get_present_value(real, disc, v)

    def same(what):
        fuse.at = None
        after = snap(real, curves, models, pts, qs)
        for a, b in zip(before, after):
            ctx.ok(alike(a, b), '%s: %s became %s', what, a, b)
        ctx.ok(alike(dcf.get_present_value(real, disc, v), pv),
               '%s: present value has changed', what)

    same('present value')
    fuse.count = 0
    failed = None
    try:
        first = call(sc, real, disc, fwd, other, v, pts)
    except (AssertionError, TypeError, ZeroDivisionError, ValueError) as e:
        failed = e  # no solution in bounds or spread there already
    n = fuse.count
    if sc['fault'] == 'spread' and sc['func'] != 'fit':
        ctx.ok(isinstance(failed, TypeError), 'second spread accepted')
    if failed and sc['fault'] not in ('bounds', 'spread') and \
            sc['func'] not in ('ytm', 'fit', 'fit-grid', 'fair'):
        raise failed
    same('call')
    ctx.case('call', str(failed))
    ctx.case('calls', n)
    if sc['fault'] in ('none', 'bounds', 'spread'):
        if not failed:
            ctx.close(call(sc, real, disc, fwd, other, v, pts), first,
                      'second call', rel=1e-13)
        same('second call')
        return
    for k in range(1, n + 1):
        if k > 60 and k % 7:
            if not sc['all']:
                continue
        fuse.count, fuse.at = 0, k
        try:
            call(sc, real, disc, fwd, other, v, pts)
        except Boom:
            pass
        else:
            ctx.ok(False, 'error of call %d is lost', k)
        ctx.case('fault', k)
        same('error at call %d of %d' % (k, n))
    if not failed and n:
        fuse.at = None
        ctx.close(call(sc, real, disc, fwd, other, v, pts), first,
                  'call after errors', rel=1e-13)
    ctx.sample({'calls': n})
