"""C28 wrong input is refused"""
import itertools

from .. import fam
from ..alpha import axis, twin
from ..flows import OFF, TENOR

LEVEL = 'exploration'
RULE = ('all curve classes, interpolations, cashflow lists, products, pricing '
        'functions, fx containers and rating classes are given each kind of '
        'wrong input at each position (unequal numbers, repeated points, non '
        'positive values for logarithms, unknown names, surplus data, wrong '
        'types, contradicting periods, unreachable targets); each has to '
        'raise and must leave all existing objects as they were, while the '
        'same call with right input works')
BOUNDS = {'lengths': '0 to 4 (thorough 6)', 'wrong positions': 'each one'}
ASSUMPTIONS = ['any exception counts as refusal',
               'wrong input is what the code documents or checks itself']
BAD = (0.0, -0.5, float('nan'), -1e-12)
LOG = {'ForwardCurve', 'FxForwardCurve', 'DiscountFactorCurve',
       'TerminalVolatilityCurve', 'ZeroRateCurve', 'Curve', 'DateCurve',
       'FlatIntensityCurve', 'CashRateCurve'}
LOGS = ('loglinear', 'log_linear_scheme', 'log_linear_rate_scheme',
        'logconstantrate', 'loglinearrate')
SCHEMES = ('linear_scheme', 'zero_linear_scheme', 'log_linear_scheme',
           'log_linear_rate_scheme')
LISTS = ('CashFlowList', 'FixedCashFlowList', 'RateCashFlowList',
         'ContingentRateCashFlowList', 'OptionCashflowList amount',
         'OptionCashflowList strike', 'OptionCashflowList put',
         'ContingentCashFlowList')


def scenarios(tier):
    n = 4 if tier == 'quick' else 6
    for cls in fam.FAM:
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for itp in (None,) + fam.ALT + LOGS:
                yield {'what': 'curve', 'cls': cls, 'axis': ax,
                       'interpolation': itp, 'n': n}
            yield {'what': 'members', 'cls': cls, 'axis': ax, 'n': n}
    for kind in LISTS:
        for ax in ('float', 'int', 'date', 'bd'):
            yield {'what': 'list', 'kind': kind, 'axis': ax, 'n': n}
    for ax in ('float', 'int', 'date', 'bd'):
        for what in ('strategy', 'legs', 'bond', 'root', 'fit'):
            yield {'what': what, 'axis': ax, 'n': n}
    for what in ('fx', 'rating', 'interpolation', 'compounding'):
        yield {'what': what, 'n': n}


class Tester(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def bad(self, msg, f, *args, **kw):
        self.ctx.trans()
        self.ctx.case(msg)
        self.ctx.raises(Exception, lambda: f(*args, **kw), '%s', msg)

    def good(self, msg, f, *args, **kw):
        self.ctx.trans()
        self.ctx.evals += 1
        try:
            return f(*args, **kw)
        except Exception as e:
            self.ctx.ok(False, '%s refused: %s %s', msg, type(e).__name__, e)

    def same(self, a, b, msg):
        self.ctx.same(a, b, '%s', msg)


def look(c):
    return [(str(d), c[d]) for d in c.domain]


def curve(sc, t, dcf):
    cls, itp, n = sc['cls'], sc['interpolation'], sc['n']
    pts, qs = axis(sc['axis'])
    pts = pts + [qs[-1]]
    kw = {} if itp is None else {'interpolation': itp}
    org = {} if cls == 'Curve' else {'origin': qs[0]}

    def new(dom, data):
        return fam.make(cls, dom, data, **kw, **org)
    values = [x if x > 0 else .03 for x in fam.vals(cls, 7, 0)[0]]
    for a, b in itertools.product(range(n + 1), repeat=2):
        dom, data = pts[:a], values[:b]
        if a == b and a > 1:
            t.good('%d points' % a, new, dom, data)
        if a != b:
            t.bad('%d dates with %d values' % (a, b), new, dom, data)
            t.bad('%d dates with %d values' % (a, b), new, tuple(dom)[::-1],
                  tuple(data))
            t.same((dom, data), (pts[:a], values[:b]), 'arguments changed')
    scheme = itp in SCHEMES or itp is None and fam.FAM[cls][0] in SCHEMES
    if scheme:
        for m in range(2, n + 1):
            for i, j in itertools.permutations(range(m), 2):
                dom = pts[:m]
                dom[i] = twin(dom[j])
                t.bad('date %d also at %d of %d' % (j, i, m), new, dom,
                      values[:m])
    logs = itp in LOGS or itp is None and 'log' in fam.FAM[cls][0]
    if logs and cls in LOG:
        for m in range(1, n + 1):
            for i in range(m):
                for v in BAD:
                    data = values[:m]
                    data[i] = v
                    t.bad('value %s at %d of %d' % (v, i, m), new,
                          pts[:m], data)
        dom = pts[1:4]
        c = new(dom, values[:3])
        was = look(c)
        for d in dom + [pts[0], pts[5], qs[-2], twin(pts[2])]:
            for v in BAD:
                t.bad('setting %s to %s' % (d, v), c.__setitem__, d, v)
                t.same(look(c), was, 'curve changed by refused value')
        if cls not in ('Curve',) and 'log' in str(itp or fam.FAM[cls][0]):
            t.bad('difference with itself', lambda: c - c)
        t.same(look(c), was, 'curve changed')
    if itp is None:
        for name in ('nosuch', 'linear ', 'LINEAR', 'log_linear'):
            t.bad('interpolation %r' % name, fam.make, cls, pts[:2],
                  values[:2], interpolation=name, **org)
            if cls != 'Curve':
                t.bad('day count %r' % name, lambda: fam.make(
                    cls, pts[:2], values[:2], day_count=name,
                    **org)(pts[1]))


def members(sc, t, dcf):
    cls = sc['cls']
    pts, qs = axis(sc['axis'])
    values = fam.vals(cls, 4, 0)[0]
    org = {} if cls == 'Curve' else {'origin': pts[0]}
    if fam.FAM[cls][2] and sc['axis'] != 'bd':
        org['forward_tenor'] = TENOR[sc['axis']]
    c = fam.make(cls, pts[1:5], values, **org)
    was = look(c)
    for d in qs + [pts[0], pts[5], pts[6]]:
        t.bad('no value given for %s' % d, lambda: c[d])
        t.same(d in c, False, 'contains %s' % d)
    for d in pts[1:5]:
        t.good('value given for %s' % d, lambda: c[twin(d)])
    # zeros
    if fam.FAM[cls][1] == 'rate':
        for m in range(1, 4):
            for i in range(m):
                data = [0.5] * m
                t.good('division', lambda: c / fam.make(
                    cls, pts[1:1 + m], data, **org))
                data[i] = 0.0
                z = fam.make(cls, pts[1:1 + m], data, **org)
                t.bad('division by zero at %d of %d' % (i, m),
                      lambda: c / z)
                z = fam.make(cls, pts[1:1 + m][::-1], data, **org)
                t.bad('division by zero at %d of %d' % (i, m),
                      lambda: c / z)
        # zero at a point of the first only
        z = fam.make(cls, [pts[2], pts[4]], [-.5, .5], **org,
                     interpolation='linear')
        if sc['axis'] in ('float', 'int'):
            mid = (pts[2] + pts[4]) / 2
            x = fam.make(cls, [pts[1], mid], [1., 1.], **org)
            t.bad('division by zero in between', lambda: x / z)
    t.same(look(c), was, 'curve changed')
    if not fam.FAM[cls][2]:
        return
    # surplus data
    for other in fam.RATES:
        if hasattr(c, 'get_discount_factor') ^ hasattr(
                getattr(dcf, other), 'get_discount_factor') or \
                hasattr(c, 'get_terminal_vol') ^ hasattr(
                    getattr(dcf, other), 'get_terminal_vol'):
            continue
        for data in ([.5], [.5] * 4, (.5,) * 5):
            t.bad('data next to curve', getattr(dcf, other), c, data)
            t.bad('curve next to curve', getattr(dcf, other), c, c)
            t.bad('data next to curve', getattr(dcf, other), c, data=data,
                  origin=pts[0])
    # spread
    sp = [dcf.DateCurve(pts[1:3], v) for v in ([.01, .02], [.0, .0])]
    for a, b in itertools.product(sp, repeat=2):
        c.spread = None
        t.good('spread', setattr, c, 'spread', a)
        v = c(pts[3])
        t.bad('second spread', setattr, c, 'spread', b)
        t.same(c.spread is a, True, 'spread changed by refused one')
        t.same(c(pts[3]), v, 'value changed by refused spread')
    c.spread = None
    # contradicting periods
    if hasattr(c, 'get_cash_rate'):
        k = TENOR[sc['axis']] if sc['axis'] != 'int' else 2
        o = OFF[sc['axis']]
        for d in pts[1:4]:
            if sc['axis'] == 'bd':
                o, k = '1M', '2M'
            for a, b in ((o, k), (k, o)):
                t.bad('period does not meet stop', c.get_cash_rate, d,
                      d + a, b)
                t.bad('period does not meet stop', c.get_cash_rate, d,
                      step=b, stop=d + a)
            if sc['axis'] in ('float', 'int'):  # zero is a date, too
                for a, b in ((o, k), (k, o)):
                    t.bad('period does not meet stop', c.get_cash_rate,
                          0 * d - a, 0 * d, b)
                    t.bad('period does not meet stop', c.get_cash_rate, d,
                          d + a, 0 * d)
            if cls != 'ShortRateCurve' or sc['axis'] == 'bd':
                t.good('period', c.get_cash_rate, d, d + k, k)
    t.same(look(c), was, 'curve changed')


def option(ax):
    import dcf
    pts, _ = axis(ax)
    return dcf.models.NormalOptionPayOffModel(pts[0], .02, .01)


def build(kind, ax, dates, xs):
    import dcf
    if kind.startswith('Opt'):
        a, s, p = [1.] * len(dates), [.02] * len(dates), [True] * len(dates)
        if kind.endswith('amount'):
            a = xs
        elif kind.endswith('strike'):
            s = xs
        else:
            p = [x > 1. for x in xs]
            if isinstance(xs, tuple):
                p = tuple(p)
        return dcf.OptionCashflowList(dates, a, s, p, payoff_model=option(ax))
    if kind == 'ContingentCashFlowList':
        return dcf.ContingentCashFlowList(dates, [lambda *_: x for x in xs])
    return getattr(dcf, kind)(dates, xs)


def lists(sc, t, dcf):
    kind, ax, n = sc['kind'], sc['axis'], sc['n']
    pts, _ = axis(ax)
    amounts = [100., -25., 50., 1., 2., 3., 4.]
    for a, b in itertools.product(range(n + 1), repeat=2):
        for typ in (list, tuple):
            dates, xs = typ(pts[:a]), typ(amounts[:b])
            if a == b:
                t.good('%d amounts' % a, build, kind, ax, dates, xs)
            else:
                t.bad('%s: %d dates with %d items' % (kind, a, b), build,
                      kind, ax, dates, xs)
            t.same((list(dates), list(xs)), (pts[:a], amounts[:b]),
                   'arguments changed')


def strategy(sc, t, dcf):
    ax, n = sc['axis'], sc['n']
    pts, _ = axis(ax)
    m = option(ax)
    am, st = [1., -2., 1., .5, 3., 4., 1.], [.0, .01, .02, .03, .04, .05, .06]
    for a, b in itertools.product(range(n + 1), repeat=2):
        for c, d in ((0, 0), (1, 1), (2, 2), (0, 1), (2, 1)):
            args = am[:a], st[:b], am[:c], st[:d]
            for args in (args, args[2:] + args[:2]):
                for f, x in ((dcf.cashflows.payoffs.
                              OptionStrategyCashFlowPayOff, pts[1]),
                             (dcf.OptionStrategyCashflowList, pts[1:3])):
                    if a == b and c == d:
                        t.good('%d and %d options' % (a, c), f, x, *args)
                    else:
                        t.bad('%d amounts %d strikes, %d amounts %d strikes'
                              % (a, b, c, d), f, x, *args)
    for a, b in itertools.product(range(13), repeat=2):
        args = pts[1:3], 1., [.01 * i for i in range(a)], 1., \
            [.01 * i for i in range(b)]
        if a + b > 10:
            t.bad('%d options' % (a + b), dcf.OptionStrategyCashflowList,
                  *args, payoff_model=m)
        else:
            t.good('%d options' % (a + b), dcf.OptionStrategyCashflowList,
                   *args, payoff_model=m)


def legs(sc, t, dcf):
    ax = sc['axis']
    pts, _ = axis(ax)
    good = [dcf.FixedCashFlowList(pts[1:3], [1., 2.], origin=pts[0]),
            dcf.RateCashFlowList(pts[1:4], 1., origin=pts[0]),
            dcf.OptionCashflowList(pts[1:4], 1., .02, origin=pts[0],
                                   payoff_model=option(ax)),
            dcf.CashFlowLegList([dcf.FixedCashFlowList(
                pts[1:2], [1.], origin=pts[0])])]
    wrong = [None, 1., pts[0], pts[1:3], {pts[1]: 1.}, 'leg',
             dcf.ZeroRateCurve(pts[1:3], [.01, .02]), good[0].payoff(pts[1])]
    for m in range(1, sc['n'] + 1):
        for xs in itertools.product(good, repeat=min(m, 3)):
            t.good('legs', dcf.CashFlowLegList, list(xs))
            for i in range(len(xs)):
                for w in wrong:
                    bad = list(xs)
                    bad[i] = w
                    t.bad('%s at %d of legs' % (type(w).__name__, i),
                          dcf.CashFlowLegList, bad)
                    t.bad('%s at %d of legs' % (type(w).__name__, i),
                          dcf.CashFlowLegList, tuple(bad))
        if m >= 3:
            break


def bond(sc, t, dcf):
    ax = sc['axis']
    pts, _ = axis(ax)
    s, e = {'float': (0., 4.), 'int': (0, 4)}.get(ax, (pts[0], None))
    per = 1
    if ax == 'date':
        from datetime import timedelta
        e, per = s + timedelta(1460), timedelta(365)
    if ax == 'bd':
        e, per = s + '4Y', '1Y'
    kw = dict(start_date=s, end_date=e, period=per)
    num = len(dcf.bond(**kw).legs[1].domain)
    t.same(num, 4, 'number of periods')
    for k in range(8):
        for typ in (list, tuple):
            plan = typ([10.] * k)
            if k == num:
                t.good('plan', dcf.bond, notional_amount=plan, **kw)
            else:
                t.bad('plan of %d payments' % k, dcf.bond,
                      notional_amount=plan, **kw)
    for x in (None, 'x', {1: 2}, {1., 2., 3., 4.}, dcf.DateCurve(
            pts[:2], [1., 1.])):
        t.bad('notional %s' % type(x).__name__, dcf.bond, notional_amount=x,
              **kw)
        t.bad('notional %s' % type(x).__name__, dcf.interest_rate_swap,
              notional_amount=x, **dict(kw, rec_leg_period=per))
    if ax == 'bd':
        for x in ('nosuch', 'modfollow ', 1):
            t.bad('convention %r' % x, dcf.bond, convention=x, **kw)
            t.bad('convention %r' % x, dcf.interest_rate_swap, convention=x,
                  rec_leg_period=per, **kw)
        for x in ('follow', 'previous', 'mod_follow', 'mod_previous', 'no'):
            t.good('convention %r' % x, dcf.bond, convention=x, **kw)


def root(sc, t, dcf):
    """targets out of reach within bounds"""
    ax = sc['axis']
    pts, _ = axis(ax)
    z = dcf.ZeroRateCurve(pts[:3], [.01, -.01, .02])
    org = pts[0]
    fix = dcf.FixedCashFlowList(pts[1:4], [5., 5., 105.], origin=org)
    rate = dcf.RateCashFlowList(pts[1:4], 100., origin=org, fixed_rate=.03,
                                forward_curve=.01)
    pv = dcf.get_present_value
    for b in ((-.1, .2), (.0, .1), (.05, .06), (.1, .2)):
        hi, lo = (pv(fix, dcf.ZeroRateCurve([org], [x]), org) for x in b)
        for x in (hi * 1.001, hi + 1, lo * .999, lo - 1, 0., -5., 1e9,
                  float('nan')):
            t.bad('yield for %s in %s' % (x, b), dcf.get_yield_to_maturity,
                  fix, org, present_value=x, bounds=b)
        for x in (hi * .75 + lo * .25, .5 * hi + .5 * lo):
            t.good('yield for %s in %s' % (x, b),
                   dcf.get_yield_to_maturity, fix, org, present_value=x,
                   bounds=b)
        was = [rate.payoff(d).fixed_rate for d in rate.domain]
        xs = []
        for r in b:
            c = dcf.RateCashFlowList(pts[1:4], 100., origin=org, fixed_rate=r,
                                     forward_curve=.01)
            xs.append(pv(c, z, org))
        lo, hi = min(xs), max(xs)
        for x in (hi + 1., lo - 1., 1e9, float('nan')):
            t.bad('fair rate for %s in %s' % (x, b), dcf.get_fair_rate, rate,
                  z, org, x, 1e-7, b)
            t.same([rate.payoff(d).fixed_rate for d in rate.domain], was,
                   'fixed rates changed by refused target')
        t.good('fair rate', dcf.get_fair_rate, rate, z, org, (hi + lo) / 2,
               1e-7, b)


def fit(sc, t, dcf):
    ax = sc['axis']
    pts, _ = axis(ax)
    org = pts[0]
    xs = [dcf.RateCashFlowList(pts[1:i], 100., origin=org, fixed_rate=.03)
          for i in range(2, 6)]
    z = dcf.ZeroRateCurve([org] + pts[1:5], [.01] * 5)
    was = look(z)
    for a, b in itertools.product(range(5), repeat=2):
        ps = [dcf.get_present_value(x, z, org) for x in xs][:b]
        grid = [max(x.domain) for x in xs][:a]
        if not grid:
            continue
        f = (lambda: dcf.get_curve_fit(xs[:a], z, org, fitting_grid=grid,
                                       present_value=ps))
        if a == b:
            t.good('fit', f)
        else:
            t.bad('%d lists with %d values' % (a, b), f)
        t.same(look(z), was, 'curve changed')
        t.same(z.spread, None, 'spread left')
        if a == b:
            for i in range(a):
                for v in (1e9, -1e9, float('nan')):
                    ps2 = list(ps)
                    ps2[i] = v
                    t.bad('fit to %s at %d' % (v, i), lambda:
                          dcf.get_curve_fit(xs[:a], z, org, fitting_grid=grid,
                                            present_value=ps2))
                    t.same(look(z), was, 'curve changed')
                    t.same(z.spread, None, 'spread left')


def fx(sc, t, dcf):
    z = [dcf.ZeroRateCurve([0., 1.], [.01 * i, .02]) for i in range(3)]

    def new():
        c = dcf.FxContainer('USD', z[0])
        c.add('EUR', z[1], 1.25)
        return c
    c = new()
    keys = sorted(c)
    fxc = dcf.FxForwardCurve([0.], [1.5], domestic_curve=z[0],
                             foreign_curve=z[2])
    other = dcf.FxForwardCurve([0.], [1.5], domestic_curve=z[1],
                               foreign_curve=z[2])
    was = {k: c[k](1.) for k in c}
    for k in (1, None, 2.0, ('A',), b'CHF'):
        t.bad('currency %r' % (k,), c.add, k, z[2], 1.5)
        t.bad('currency %r' % (k,), c.__setitem__, k, fxc)
        t.bad('currency %r' % (k,), c.__setitem__, ('USD', k), fxc)
        t.bad('currency %r' % (k,), c.__setitem__, (k, 'USD'), fxc)
        t.bad('currency %r' % (k,), lambda: c[k])
    for k in (None, .02, 'x', dcf.DateCurve([0., 1.], [.1, .1]), fxc):
        t.bad('foreign curve %s' % type(k).__name__, c.add, 'CHF', k, 1.5)
        t.bad('fx curve %s' % type(k).__name__, c.__setitem__, 'CHF',
              z[1] if k is fxc else k)
        t.bad('fx curve %s' % type(k).__name__, c.__setitem__,
              ('USD', 'CHF'), z[1] if k is fxc else k)
    for k in (None, 'x', z[2]):
        t.bad('spot %s' % type(k).__name__, c.add, 'CHF', z[2], k)
    t.bad('other domestic curve', c.__setitem__, 'CHF', other)
    t.same(sorted(c), keys, 'container changed')
    t.same({k: c[k](1.) for k in c}, was, 'container changed')
    t.good('add', c.add, 'CHF', z[2], 1.5)
    t.good('set', new().__setitem__, 'CHF', fxc)


def rating(sc, t, dcf):
    from dcf.ratingclass import MASTER_SCALE, RatingClass, SHORT_MASTER_SCALE
    for scale in (MASTER_SCALE, SHORT_MASTER_SCALE,
                  {'A': .001, 'B': .01, 'C': .1, 'D': .5},
                  {'D': .5, 'B': .01}):
        ms = RatingClass(.05, scale).masterscale
        v = sorted(ms.values())
        for x in (v[0] * .99, v[0] / 2, v[-1] * 1.01, v[-1] + 1., -.1):
            r = RatingClass(x, scale)
            t.bad('%s outside of scale' % x, lambda: list(r))
            t.bad('%s outside of scale' % x, lambda: r.vector)
            t.bad('%s outside of scale' % x, lambda: str(r))
        for x in (v[0], v[-1], (v[0] + v[1]) / 2, v[0] * 1.001, v[-1] * .99):
            r = RatingClass(x, scale)
            t.good('%s inside of scale' % x, lambda: list(r))
        for x in ('nosuch', '', None, 'a', 1, [.1]):
            t.bad('rating %r' % (x,), RatingClass, x, scale)
            t.bad('rating %r' % (x,), RatingClass, x)
        for x in ms:
            t.good('rating %r' % (x,), RatingClass, x, scale)
            t.bad('rating %r without scale' % (x,), RatingClass, x)


def interp(sc, t, dcf):
    from dcf import interpolation as m
    for name in ('left', 'right', 'constant', 'nearest', 'linear',
                 'loglinear', 'loglinearrate', 'logconstantrate'):
        f = getattr(m, name)
        for x in (0.5, -1., 3):
            t.bad('%s without data' % name, lambda: f([], [])(x))
            t.good(name, lambda: f([1.], [2.])(x))
        if 'log' in name:
            for k in range(1, sc['n'] + 1):
                for i in range(k):
                    for v in BAD:
                        ys = [1.5] * k
                        ys[i] = v
                        t.bad('%s of %s' % (name, v), f,
                              [float(j) for j in range(k)], ys)
    for name in SCHEMES:
        f = getattr(m, name)
        t.bad('%s without data' % name, lambda: f([], [])(0.5))
        for xs, ys in (([1., 2.], [1.]), ([1.], [1., 2.]), ([1., 1.],
                                                           [1., 2.]),
                       ([1., 2., 1.], [1., 2., 1.]), ([], [1.])):
            t.bad('%s of %s %s' % (name, xs, ys), f, xs, ys)
        for k in (4, 5, 6):
            t.bad('%d pieces' % k, f, [1., 2.], [1., 2.],
                  [m.linear] * k)
        for k in (1, 2, 3):
            t.good('%d pieces' % k, f, [1., 2.], [1., 2.],
                   [m.linear] * k)
        for x in (1, 'linear', dict, int, object()):
            t.bad('interpolation %r' % (x,), f, [1., 2.], [1., 2.], x)


def comp(sc, t, dcf):
    from dcf import compounding as m
    for df in (.5, 1., 1.25, .99):
        t.bad('simple rate of no time', m.simple_rate, df, 0.)
        t.bad('continuous rate of no time', m.continuous_rate, df, 0.)
        for f in (1, 2, 4, 12, 365):
            t.bad('periodic rate of no time', m.periodic_rate, df, 0., f)
            t.bad('periodic rate of no frequency', m.periodic_rate, df, 1., 0)
            t.good('periodic rate', m.periodic_rate, df, 1., f)
    for y in (.5, 1., 2., -1.):
        t.bad('simple rate of zero', m.simple_rate, 0., y)
        for df in (0., -.5, -1.):
            t.bad('continuous rate of %s' % df, m.continuous_rate, df, y)
        t.good('simple rate', m.simple_rate, .5, y)
        t.good('continuous rate', m.continuous_rate, .5, y)
        t.bad('simple compounding', m.simple_compounding, -1. / y, y)
    t.bad('periodic rate of zero', m.periodic_rate, 0., 1., 2)


WHAT = {'curve': curve, 'members': members, 'list': lists, 'fit': fit,
        'strategy': strategy, 'legs': legs, 'bond': bond, 'root': root,
        'fx': fx, 'rating': rating, 'interpolation': interp,
        'compounding': comp}


def run(sc, ctx):
    import dcf
    import dcf.cashflows.payoffs  # noqa: F401
    WHAT[sc['what']](sc, Tester(ctx), dcf)
    ctx.trace()
