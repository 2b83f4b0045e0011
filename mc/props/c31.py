"""C31 objects own their data, arguments and results are nobody else's"""
import copy

from ..alpha import axis
from ..fam import FAM, edits, make, vals

LEVEL = 'exploration'
RULE = ('every constructor and function which takes or gives lists, tuples or '
        'dicts x date type: build; then every pair of (change of a container '
        'given before, change of a container got from it) in both orders, '
        'and every edit of one of two objects built from the same '
        'containers; afterwards given containers are as the caller left '
        'them, and everything observable of the objects is as before')
BOUNDS = {'changes': 'append, pop, clear, replace first, reverse, extend '
                     'resp. pop, clear, replace, add of dicts',
          'pairs of changes': 'all'}
ASSUMPTIONS = ['objects (curves, models, payoffs, cashflow lists) are shared '
               'by intention, containers are not']
SIZES = 1, 3, 4


def scenarios(tier):
    for ax in ('float', 'int', 'date', 'bd'):
        for cls in FAM:
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            for n in SIZES:
                for unsorted in (0, 1):
                    yield {'case': 'curve', 'cls': cls, 'axis': ax, 'n': n,
                           'unsorted': unsorted}
        for n in SIZES:
            for case in FLOWS:
                yield {'case': case, 'axis': ax, 'n': n}
        for case in OTHER:
            yield {'case': case, 'axis': ax, 'n': 3}
        if ax in ('float', 'bd'):
            for case in ('bond', 'swap'):
                yield {'case': case, 'axis': ax, 'n': 3}


def replace(x):
    x[0] = x[-1]


def rekey(x):
    x[next(iter(x))] = 123.


LIST = [('append', lambda x: x.append(x[0])), ('pop', lambda x: x.pop()),
        ('clear', lambda x: x.clear()), ('replace', replace),
        ('reverse', lambda x: x.reverse()),
        ('extend', lambda x: x.extend(x))]
DICT = [('pop', lambda x: x.pop(next(iter(x)))),
        ('clear', lambda x: x.clear()), ('rekey', rekey),
        ('add', lambda x: x.update(new=1.))]


def ops(x):
    if isinstance(x, list) and x:
        return LIST
    if isinstance(x, dict) and x:
        return DICT
    return []


class Case(object):
    """args: containers; build(args); see(obj); out: getters; edits"""
    def __init__(self, args, build, see, out=None, edits=()):
        self.args, self.build, self.see = args, build, see
        self.out, self.edits = out or {}, edits


def curve(sc, pts, qs):
    cls, n = sc['cls'], sc['n']
    idx = (1, 3, 4, 5)[:n]
    if sc['unsorted']:
        idx = idx[::-1]
    grid = [pts[i] for i in idx]
    data, _ = vals(cls, n, n)
    ts = [pts[1], pts[3], pts[5], qs[3]]
    one = FAM[cls][0] == 'log_linear_rate_scheme' and n == 1
    kw = {} if cls == 'Curve' else {'origin': pts[0]}
    if cls == 'FxForwardCurve':
        import dcf
        kw['domestic_curve'] = dcf.ZeroRateCurve([pts[0]], [.02])
        kw['foreign_curve'] = dcf.ZeroRateCurve([pts[0]], [.01])
    if 'Forward' in cls:
        ts = [t for t in ts if t <= max(grid)]
    if one and cls == 'Curve':
        return None

    def see(c):
        k = dict(c.kwargs)
        return [list(c.domain), list(c(list(ts))), list(iter(c)),
                sorted(k), list(k['domain']), list(k['data'])] + \
            [c.origin for _ in kw]
    out = {'domain': lambda c: c.domain, 'kwargs': lambda c: c.kwargs,
           'kwargs domain': lambda c: c.kwargs['domain'],
           'kwargs data': lambda c: c.kwargs['data'],
           'values': lambda c: c(list(ts))}
    if n > 1:
        out['table'] = lambda c: c.table
    v, w = edits(cls)

    def put(d, x):
        def f(c):
            c[d] = x
        return f

    def fixing(c):
        if hasattr(c, 'fixings'):
            c.fixings[ts[0]] = 0.0775
    return Case({'domain': grid, 'data': data},
                lambda a: make(cls, a['domain'], a['data'], **kw), see, out,
                [put(grid[0], w), put(pts[6], w), put(pts[2], v), fixing])


def amounts(n):
    return [100., -40., 0., 7.][:n]


def look(x):
    res = [list(x.domain), x.origin, [x[d] for d in x.domain],
           [tuple(r) for r in x.table], len(getattr(x, 'legs', ()))]
    y = x()
    return res + [list(y.domain), [y[d] for d in y.domain]]


def flow_out(x):
    return {'domain': lambda x: x.domain, 'table': lambda x: x.table,
            'flows': lambda x: x[list(x.domain)],
            'payoffs': lambda x: x.payoff(list(x.domain)),
            'copy': lambda x: x().domain}


def rated(x):
    x.fixed_rate = 0.75


def plain(cls, **kw):
    def case(sc, pts, qs):
        import dcf
        return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:sc['n']]],
                     'amounts': amounts(sc['n'])},
                    lambda a: getattr(dcf, cls)(
                        a['dates'], a['amounts'], origin=pts[0], **kw),
                    look, flow_out(0), [rated] if 'Rate' in cls else [])
    return case


def model(pts):
    import dcf
    return dcf.models.NormalOptionPayOffModel(pts[0], 2., .5)


def noorigin(sc, pts, qs):
    import dcf
    if sc['n'] < 2:
        return None
    return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:sc['n']]],
                 'amounts': amounts(sc['n'])},
                lambda a: dcf.RateCashFlowList(
                    a['dates'], a['amounts'], fixed_rate=.25),
                look, flow_out(0), [rated])


def collar(sc, pts, qs):
    import dcf
    return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:sc['n']]],
                 'amounts': amounts(sc['n'])},
                lambda a: dcf.ContingentRateCashFlowList(
                    a['dates'], a['amounts'], origin=pts[0], fixed_rate=.25,
                    cap_strike=2.5, floor_strike=1., payoff_model=model(pts)),
                look, flow_out(0), [rated])


def payoffs(sc, pts, qs):
    import dcf
    n = sc['n']
    return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:n]],
                 'payoffs': [dcf.OptionCashFlowPayOff(pts[5], 2., 1.),
                             dcf.FixedCashFlowPayOff(3.), 7.,
                             dcf.RateCashFlowPayOff(pts[0], pts[1])][:n]},
                lambda a: dcf.ContingentCashFlowList(
                    a['dates'], a['payoffs'], pts[0], model(pts)),
                look, flow_out(0), [])


def option(sc, pts, qs):
    import dcf
    n = sc['n']
    return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:n]],
                 'amounts': amounts(n), 'strikes': [1., 2., None, 3.][:n],
                 'puts': [True, False, True, False][:n]},
                lambda a: dcf.OptionCashflowList(
                    a['dates'], a['amounts'], a['strikes'], a['puts'],
                    origin=pts[0], payoff_model=model(pts)),
                look, flow_out(0), [])


def strategy(sc, pts, qs):
    import dcf
    n = sc['n']
    out = flow_out(0)
    out['details'] = lambda x: x.payoff(pts[1]).details(x.payoff_model)
    return Case({'dates': [pts[i] for i in (1, 3, 4, 5)[:n]],
                 'calls': amounts(n), 'call strikes': [3., 1., 2., 2.][:n],
                 'puts': amounts(n), 'put strikes': [2., 3., 1., 2.5][:n]},
                lambda a: dcf.OptionStrategyCashflowList(
                    a['dates'], a['calls'], a['call strikes'], a['puts'],
                    a['put strikes'], origin=pts[0], payoff_model=model(pts)),
                look, out, [])


def legs(sc, pts, qs):
    import dcf
    d = [pts[i] for i in (1, 3, 4, 5)[:sc['n']]]
    a = amounts(sc['n'])
    x = dcf.CashFlowList(d, a, pts[0])
    y = dcf.RateCashFlowList(d, a, pts[0], fixed_rate=.5)
    out = flow_out(0)
    out['legs'] = lambda x: x.legs
    return Case({'legs': [x, y, dcf.CashFlowLegList([x])]},
                lambda a: dcf.CashFlowLegList(a['legs']), look, out, [])


def product(which):
    def case(sc, pts, qs):
        import dcf
        from businessdate import BusinessDate
        s, e = (0., 3.) if sc['axis'] == 'float' else (
            BusinessDate(2023, 1, 16), BusinessDate(2026, 1, 16))
        p = 1 if sc['axis'] == 'float' else '1y'
        dc = (lambda s, e=None: e - s) if sc['axis'] == 'float' else \
            'thirty360'
        f, kw = dcf.bond, {}
        if which == 'swap':
            f = dcf.interest_rate_swap
            kw['rec_leg_period'] = .5 if sc['axis'] == 'float' else '6m'
        out = flow_out(0)
        out['legs'] = lambda x: x.legs
        return Case({'plan': [30., 20., 10.]},
                    lambda a: f(s, e, period=p, notional_amount=a['plan']
                                if which == 'bond' else 30.,
                                fixed_rate=.03, day_count=dc, **kw), look, out, [])
    return case


FLOWS = {'CashFlowList': plain('CashFlowList'),
         'FixedCashFlowList': plain('FixedCashFlowList'),
         'RateCashFlowList': plain('RateCashFlowList', fixed_rate=.25,
                                   forward_curve=2.),
         'RateCashFlowList no origin': noorigin, 'collar': collar,
         'payoffs': payoffs, 'option': option, 'strategy': strategy,
         'legs': legs}


def scale(kind):
    def case(sc, pts, qs):
        import dcf
        ms = {'C': .25, 'A': .001, 'B': .03} if kind == 'dict' else \
            ['A', 'B', 'C', 'D']

        def see(r):
            m = r.masterscale
            return [float(r), str(r), list(r), r.vector, m.keys(), m.values(),
                    m.items(), [float(x) for x in m.rating_classes()]]
        out = {'vector': lambda r: r.vector, 'list': list,
               'keys': lambda r: r.masterscale.keys(),
               'values': lambda r: r.masterscale.values(),
               'items': lambda r: r.masterscale.items(),
               'classes': lambda r: r.masterscale.rating_classes()}
        return Case({'scale': ms},
                    lambda a: dcf.RatingClass(.01, a['scale']), see, out, [])
    return case


def pricing(name):
    def case(sc, pts, qs):
        import dcf
        z = dcf.ZeroRateCurve([pts[0], pts[3], pts[5]], [.01, .03, .02],
                              origin=pts[0])
        y = dcf.ZeroRateCurve([pts[0], pts[5]], [.01, .02], origin=pts[0])
        cf = [dcf.FixedCashFlowList([pts[3]], [100.], pts[0]),
              dcf.RateCashFlowList([pts[3], pts[5]], 100., pts[0],
                                   fixed_rate=.03)]
        grid = [pts[5], pts[0], pts[3]]
        if name == 'delta':
            args = {'grid': grid, 'curves': [z, y]}

            def f(a):
                return dcf.get_bucketed_delta(
                    cf[1], z, pts[0], a['curves'], a['grid'])
        elif name == 'bpv':
            args = {'curves': [z, y]}

            def f(a):
                return dcf.get_basis_point_value(cf[1], z, pts[0],
                                                 a['curves'])
        elif name == 'pv':
            args = {'legs': cf}

            def f(a):
                return dcf.get_present_value(
                    dcf.CashFlowLegList(a['legs']), z, pts[0])
        elif name == 'fit':
            args = {'flows': cf, 'grid': [pts[3], pts[5]],
                    'prices': [dcf.get_present_value(x, y, pts[0])
                               for x in cf], 'bounds': [-.1, .2]}

            def f(a):
                return dcf.get_curve_fit(
                    a['flows'], z, pts[0], None, a['grid'], a['prices'],
                    bounds=a['bounds'])
        elif name == 'ytm':
            args = {'bounds': [-.1, .2]}
            price = dcf.get_present_value(cf[1], y, pts[0])

            def f(a):
                return dcf.get_yield_to_maturity(cf[1], pts[0], price,
                                                 bounds=a['bounds'])
        elif name == 'table':
            args = {'x': [pts[5], pts[1]], 'y': [
                0.25, 1.0] if sc['axis'] == 'float' else ['1y', '3m']}
            if sc['axis'] != 'bd' and sc['axis'] != 'float':
                args['y'] = [pts[2] - pts[1], pts[1] - pts[0]]

            def f(a):
                return dcf.rate_table(z, a['x'], a['y'])
        return Case(args, f, lambda r: copy.deepcopy(r),
                    {'result': lambda r: r} if 0 else {}, [])
    return case


def plan(name):
    def case(sc, pts, qs):
        import dcf
        if name == 'outstanding':
            return Case({'plan': [10., 20., 30.]},
                        lambda a: dcf.plans.outstanding(a['plan'], 60.),
                        copy.deepcopy)
        f = getattr(dcf.plans, name)

        def see(_):
            return f(4, 100.)
        return Case({'none': []}, lambda a: name, see,
                    {'plan': lambda _: f(4, 100.)})
    return case


def fx(sc, pts, qs):
    import dcf
    one = dcf.ZeroRateCurve([pts[0], pts[4]], [.03, .05], origin=pts[0])
    two = dcf.ZeroRateCurve([pts[0]], [.01], origin=pts[0])

    def build(a):
        c = dcf.FxContainer('EUR', one)
        c.add('USD', two, 1.25)
        c.add('GBP', one, .75)
        return c

    def see(c):
        return [sorted(c), [c.get_forward_price(a, b, pts[5])
                            for a, b in sorted(c)],
                [sorted(c[a]) for a in ('EUR', 'USD', 'GBP')]]

    def add(c):
        c.add('CHF', two, 2.)
    return Case({'none': []}, build, see, {
        'EUR': lambda c: c['EUR'], 'USD': lambda c: c['USD']}, [add])


def interp(name):
    def case(sc, pts, qs):
        import dcf.interpolation as ip
        f = getattr(ip, name)
        return Case({'x': [3., 1., 2.], 'y': [.5, .25, 2.]},
                    lambda a: f(a['x'], a['y']),
                    lambda o: [o(x) for x in (1., 2., 3.)] +
                    [x in o for x in (1., 1.5) if hasattr(
                        o, '__contains__')])
    return case


def details(which):
    def case(sc, pts, qs):
        import dcf
        curve, one = 2., model(pts)

        def build(a):
            if which == 'rate':
                return dcf.RateCashFlowPayOff(
                    pts[0], pts[2], amount=10., fixed_rate=.25)
            if which == 'fixed':
                return dcf.FixedCashFlowPayOff(7.)
            if which == 'option':
                return dcf.OptionCashFlowPayOff(pts[3], 2., 1.)
            if which == 'strategy':
                return dcf.OptionStrategyCashFlowPayOff(
                    pts[3], [1., 2.], [1., 2.], [3.], [1.])
            return dcf.ContingentRateCashFlowPayOff(
                pts[0], pts[2], amount=10., fixed_rate=.25, cap_strike=2.5,
                floor_strike=1.)
        args = {'rate': (None, curve, 0.), 'collar': (None, one),
                'fixed': (None, 1.)}.get(which, (None, one))

        def see(x):
            return [[sorted((k, v) for k, v in x.details(a).items()
                            if isinstance(v, (int, float)) and
                            k[-3:] != '-id')
                     for a in args] + [float(x(a) or 0.) for a in args]]
        out = {'details %d' % i: lambda x, a=a: x.details(a)
               for i, a in enumerate(args)}
        if which == 'fixed':
            out['plain'] = lambda x: x.details()
        return Case({'none': []}, build, see, out)
    return case


def default(sc, pts, qs):
    import dcf

    def build(a):
        res = []
        for cls in FAM:
            if cls != 'Curve' or sc['axis'] in ('float', 'int'):
                kw = {} if cls == 'Curve' else {'origin': pts[0]}
                res.append(getattr(dcf, cls)(**kw))
        return res + [dcf.CashFlowList(), dcf.FxContainer(
            'EUR', dcf.ZeroRateCurve([pts[0]], [.01])), dcf.RatingClass(.5)]

    def see(x):
        return [len(list(getattr(c, 'domain', ()))) for c in x] + [
            sorted(x[-2]), float(x[-1])]

    def edit(x):
        for c in x[:-3]:
            c[pts[1]] = .5
            c[pts[2]] = .25
            getattr(c, 'fixings', {})[pts[1]] = 0.1
    return Case({'none': []}, build, see, {}, [edit])


def fromdict(sc, pts, qs):
    import dcf.interpolation as ip
    return Case({'xy': {3.: .5, 1.: .25, 2.: 2.}},
                lambda a: ip.linear.from_dict(a['xy']),
                lambda o: [o(x) for x in (1., 1.5, 2., 3.)])


def greeks(sc, pts, qs):
    def see(m):
        return [m.get_call_value(pts[3], 1.), m.get_put_value(pts[3]),
                sorted(x for x in m.details(pts[3]).items() if x[0][-2:] != 'id')]
    return Case({'none': []}, lambda a: model(pts), see, {
        'details': lambda m: m.details(pts[3], 1.)})


OTHER = {'default': default, 'scale dict': scale('dict'),
         'scale list': scale('list'), 'fx': fx,
         'from_dict': fromdict, 'greeks': greeks}
OTHER.update((k, pricing(k)) for k in ('delta', 'bpv', 'pv', 'fit', 'ytm',
                                       'table'))
OTHER.update(('details ' + k, details(k)) for k in (
    'rate', 'fixed', 'option', 'strategy', 'collar'))
OTHER.update((k, plan(k)) for k in ('outstanding', 'same', 'bullet',
                                    'amortize', 'annuity', 'consumer'))
OTHER.update((k, interp(k)) for k in (
    'linear', 'constant', 'left', 'right', 'nearest', 'loglinear', 'no',
    'zero', 'zero_linear_scheme', 'log_linear_scheme',
    'log_linear_rate_scheme', 'linear_scheme'))


def run(sc, ctx):
    pts, qs = axis(sc['axis'])
    if sc['case'] == 'curve':
        def new():
            return curve(sc, pts, qs)
    else:
        f = FLOWS.get(sc['case']) or OTHER.get(sc['case']) or product(
            sc['case'])

        def new():
            return f(sc, pts, qs)
    c = new()
    if c is None:
        return
    obj = c.build(c.args)
    base = c.see(obj)
    untouched(ctx, new(), c, 'reading')
    # same containers as tuples
    t = {k: tuple(v) if isinstance(v, list) else v
         for k, v in c.args.items()}
    ctx.ok(equal(c.see(c.build(t)), base), 'tuples for lists: %s, %s',
           c.see(c.build(t)), base)
    given = [(k, o, f) for k, v in c.args.items() for o, f in ops(v)]
    got = [(k, o, f) for k, g in c.out.items() for o, f in ops(g(obj))]
    # every change given, got and pairs of these in both orders
    for g in given + [None]:
        for h in got + [None]:
            for order in (0, 1) if g and h else (0,):
                ctx.state(str(g and g[:2]), str(h and h[:2]), order)
                steps = [x for x in ((g, 0), (h, 1)) if x[0]]
                if order:
                    steps.reverse()
                change(ctx, new(), steps, base)
    # two objects from same containers
    for i, e in enumerate(c.edits):
        d = new()
        a, b = d.build(d.args), d.build(d.args)
        e(a)
        ctx.trans()
        untouched(ctx, new(), d, 'edit %d' % i)
        ctx.ok(equal(d.see(b), base), 'edit %d of a twin changed %s to %s',
               i, base, d.see(b))
        ctx.ok(equal(d.see(d.build(d.args)), base), 'edit %d: build again', i)
    ctx.case(sc['case'])
    ctx.sample({'given': len(given), 'got': len(got)})


def change(ctx, d, steps, base):
    obj = d.build(d.args)
    for (k, o, f), out in steps:
        ctx.trans()
        if out:
            x = d.out[k](obj)
            y = copy.copy(x)
            f(x)
            z = d.out[k](obj)
            ctx.ok(alike(z, y), '%s of result %s shows in the next one: %s',
                   o, k, z)
        else:
            f(d.args[k])
        have = d.see(obj)
        ctx.ok(equal(have, base), '%s of %s %s changed %s to %s', o,
               'result' if out else 'argument', k, base, have)


def untouched(ctx, new, d, what):
    for k, v in d.args.items():
        w = new.args[k]
        ctx.ok(type(v) is type(w) and len(v) == len(w) and alike(v, w),
               '%s changed argument %s: %s', what, k, v)


def alike(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, dict):
        return sorted(a, key=str) == sorted(b, key=str) and all(
            alike(a[k], b[k]) for k in a)
    return a == b or type(a) is type(b) and type(a).__module__[:3] == 'dcf'


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            map(equal, a, b))
    if isinstance(a, float) or isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(1., abs(a))
    return a == b
