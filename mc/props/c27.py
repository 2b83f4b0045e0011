"""C27 everything derived depends on the current state only"""
import itertools

from ..alpha import MANY, act360, axis, bent, twin
from ..core import near
from ..fam import FAM, edits, make, vals
from ..flows import OFF, TENOR

LEVEL = 'model_checking'
RULE = ('all histories up to the depth of edits (points, spread curve, points '
        'of the spread curve, fixings, yield and discount curves of forward '
        'prices; fixed rates, forward curve, payoff model of cashflow lists '
        'and legs; every parameter of option models) with all derived '
        'quantities read before and after each step (all dates and pairs of '
        'dates; discount factors, rates, probabilities, volatilities, '
        'prices, integrals, tables, casts, sums, flows, pricing functions, '
        'option values and sensitivities), compared with a newly built '
        'object having the same state, and with themselves when read again')
BOUNDS = {'depth': '2 (thorough 3)', 'operations': '6 to 14',
          'dates': '5 dates, all ordered pairs',
          'points of curves': '3 to 6; 15 to 18'}
ASSUMPTIONS = ['a curve whose origin is given implicitly keeps its first '
               'given date as origin',
               'newly built objects are right (other properties)']
LISTS = ('rate', 'noorg', 'collar', 'option', 'strategy', 'legs', 'nested')
MODELS = ('Normal', 'LogNormal', 'DisplacedLogNormal', 'Intrinsic',
          'BinaryNormal', 'BinaryLogNormal', 'BinaryDisplacedLogNormal',
          'BinaryIntrinsic')
OPS = 28  # at least the number of operations of each case


def scenarios(tier):
    deep = 2 if tier == 'quick' else 3
    for cls in FAM:
        axes = ('float', 'bd', 'date') if cls != 'Curve' else ('float', 'int')
        if cls in ('ShortRateCurve', 'HazardRateCurve'):
            axes = 'bd',
        for ax in axes:
            depth = deep if ax == axes[0] and len(axes) > 1 else 2
            for first in range(OPS):
                sc = {'what': 'curve', 'cls': cls, 'axis': ax,
                      'first': first, 'depth': depth}
                yield sc
                if ax == axes[0] or tier != 'quick':
                    yield dict(sc, probe=True)
                if ax == axes[-1] and len(axes) > 1:
                    yield dict(sc, many=24, depth=2)
    for kind in LISTS:
        for ax in ('float', 'bd'):
            depth = deep if ax == 'float' else 2
            for first in range(OPS):
                sc = {'what': 'list', 'kind': kind, 'axis': ax,
                      'first': first, 'depth': depth}
                yield sc
                yield dict(sc, probe=True)
    for kind in MODELS:
        for ax in ('float', 'bd'):
            for first in range(OPS):
                sc = {'what': 'model', 'kind': kind, 'axis': ax,
                      'first': first, 'depth': 2}
                yield sc
                if ax == 'float' or tier != 'quick':
                    yield dict(sc, probe=True)


def read(f, *args):
    """value or the kind of error"""
    try:
        r = f(*args)
    except (AssertionError, TypeError, ValueError, ZeroDivisionError,
            OverflowError, KeyError, IndexError, AttributeError) as e:
        return type(e).__name__
    return flat(r)


def flat(r):
    if isinstance(r, (list, tuple)):
        return [flat(x) for x in r]
    if isinstance(r, dict):
        return [flat(r[k]) for k in sorted(r)]
    if hasattr(r, 'domain'):
        ds = sorted(r.domain)
        return [list(map(str, ds)), flat([r[d] for d in ds])]
    if r is None or isinstance(r, (bool, int, float)):
        return r
    return str(r)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return near(a, b, 1e-9, 1e-10)
    return a == b


class CurveCase(object):
    pairs = ('get_discount_factor', 'get_zero_rate', 'get_cash_rate',
             'get_survival_prob', 'get_flat_intensity', 'get_terminal_vol')
    singles = ('get_discount_factor', 'get_zero_rate', 'get_short_rate',
               'get_cash_rate', 'get_survival_prob', 'get_flat_intensity',
               'get_hazard_rate', 'get_terminal_vol', 'get_instantaneous_vol',
               'get_forward_price')

    def __init__(self, sc):
        import dcf
        self.dcf = dcf
        cls = self.cls = sc['cls']
        self.ax = sc['axis']
        pts, qs = axis(self.ax, many=sc.get('many', 0))
        if cls in ('ShortRateCurve', 'HazardRateCurve'):
            from .c06 import SHORT as pts, SHORTQ as qs
        self.p, self.q = pts, qs
        dom = [pts[1], pts[3], pts[4]]
        if 'many' in sc:
            dom = [pts[i] for i in MANY[1]]
        data, _ = vals(cls, len(dom), 0)
        self.points = list(zip(dom, data))
        self.fix, self.spr, self.sd = {}, None, None
        self.fwd = {}
        if 'Forward' in cls:
            self.fwd = {'yield_curve': 0.02}
        if cls == 'FxForwardCurve':
            self.fwd = {'domestic_curve': self.zero(1),
                        'foreign_curve': self.zero(2)}
        self.real = self.fresh()
        # a sibling sharing domain and data
        self.sib = make(cls, dom, data)

    def zero(self, k):
        p = self.p
        return self.dcf.ZeroRateCurve([p[0], p[2], p[5]], [
            0.01 * k, -0.01, 0.03], origin=p[0])

    def fresh(self):
        kw = dict(self.fwd)
        if self.cls != 'Curve':
            kw['origin'] = self.p[1]
        if FAM[self.cls][2] and self.ax != 'bd':
            kw['forward_tenor'] = TENOR[self.ax]
        c = make(self.cls, [d for d, _ in self.points],
                 [v for _, v in self.points], **kw)
        if self.cls != 'Curve':
            c.fixings.update(self.fix)
        if self.sd:
            c.spread = self.dcf.DateCurve([d for d, _ in self.sd],
                                          [v for _, v in self.sd])
        return c

    def ops(self):
        p = self.p
        v, w = edits(self.cls)
        if self.cls.startswith('Default') or 'MarginalDefault' in self.cls:
            v, w = 0.0625, 0.5  # stored as default probability below
        res = [('put', twin(p[4]), v), ('put', p[1], w), ('put', p[0], w),
               ('put', p[2], v), ('put', p[5], w)]
        if self.cls == 'Curve':
            return res
        res += [('fix', p[3], w), ('fix', p[2], v), ('unfix', p[3]),
                ('fix', p[3], v)]
        if FAM[self.cls][2]:
            res += [('spread', ((p[1], 0.01),)),
                    ('spread', ((p[2], 0.0), (p[4], 0.005))),
                    ('spread', None), ('sput', p[4], -0.0025)]
        if self.cls == 'ForwardCurve':
            res += [('fwd', 'yield_curve', x) for x in
                    (0.0, 0.05, self.zero(1))]
        if self.cls == 'ForwardCurve':
            res += [('fedit', 'yield_curve', p[5], 0.07)]
        if self.cls == 'FxForwardCurve':
            res += [('fedit', 'foreign_curve', p[5], 0.07),
                    ('fedit', 'domestic_curve', p[0], 0.07)]
            res += [('fwd', k, self.zero(3)) for k in
                    ('domestic_curve', 'foreign_curve')]
            res += [('fwd', 'domestic_curve', None)]
        return res

    def step(self, op):
        k = op[0]
        if k == 'put':
            v = op[2]
            real = v
            if 'Default' in self.cls:  # values are survival probabilities
                v = 1. - v
                real = 1. - op[2]
                v, real = op[2], 1. - op[2]
            self.real[op[1]] = real
            self.points = [x for x in self.points if x[0] != op[1]] + \
                [(op[1], v)]
        elif k == 'fix':
            self.real.fixings[op[1]] = op[2]
            self.fix[op[1]] = op[2]
        elif k == 'unfix':
            self.real.fixings.pop(op[1], None)
            self.fix.pop(op[1], None)
        elif k == 'spread':
            if self.sd:
                self.real.spread = None
            self.sd = list(op[1]) if op[1] else None
            self.real.spread = self.dcf.DateCurve(
                [d for d, _ in self.sd], [v for _, v in self.sd]) \
                if self.sd else None
        elif k == 'sput':
            if self.sd:
                self.real.spread[op[1]] = op[2]
                self.sd = [x for x in self.sd if x[0] != op[1]] + [op[1:]]
        elif k == 'fedit':
            if hasattr(self.fwd[op[1]], 'domain'):
                self.fwd[op[1]][op[2]] = op[3]
        elif k == 'fwd':
            setattr(self.real, op[1], op[2])
            self.fwd[op[1]] = op[2]

    def plan(self, c):
        p, q = self.p, self.q
        ds = sorted([p[1], p[2], p[4], q[1], p[6], p[3]])
        daily = self.cls in ('ShortRateCurve', 'HazardRateCurve')
        if daily:
            ds = [p[1], p[2], p[3]]
        yield 'domain', lambda: sorted(map(str, c.domain))
        for d in ds:
            yield 'value %s' % d, lambda d=d: c(d)
        if not daily:
            yield 'table', lambda: c.table
        for f in self.singles:
            if hasattr(c, f):
                for d in ds:
                    yield (f, d), lambda f=f, d=d: getattr(c, f)(d)
        for f in self.pairs:
            if hasattr(c, f):
                for s in ds:
                    for t in ds:
                        if s <= t:
                            yield (f, s, t), lambda f=f, s=s, t=t: \
                                getattr(c, f)(s, t)
        if self.cls == 'Curve':
            yield 'sum', lambda: c + c
            return
        if hasattr(c, 'get_swap_annuity'):
            yield 'annuity', lambda: c.get_swap_annuity(ds)
        if not daily:
            yield 'integral', lambda: c.integrate(p[1], p[4])
            yield 'kwargs', lambda: [list(x) for x in sorted(
                zip(c.kwargs['domain'], c.kwargs['data']))]
        if self.ax == 'bd' and not daily:
            yield 'slope', lambda: c.derivative(p[2])
        for other in ('ZeroRateCurve', 'FlatIntensityCurve', 'DateCurve',
                      'CashRateCurve'):
            if not daily and not (other == 'ZeroRateCurve') ^ hasattr(
                    c, 'get_zero_rate'):
                yield other, lambda o=other: getattr(self.dcf, o)(c)

    def fill(self):
        """everything which may be set is set"""
        done = set()
        for op in self.ops():
            if op[0] in ('fix', 'spread', 'fwd') and op[-1] is not None:
                if op[:2] not in done or op[0] == 'fwd':
                    self.step(op)
                    done.add(op[:2])


class ListCase(object):
    def __init__(self, sc):
        import dcf
        self.dcf = dcf
        self.kind, self.ax = sc['kind'], sc['axis']
        self.p, self.q = axis(self.ax)
        p = self.p
        self.dates = [p[1], p[2], p[4]]
        self.curves = [None, 0.03, self.zero(1), self.dcf.DateCurve(
            [p[1], p[4]], [0.04, -0.01])]
        self.disc = self.zero(2)
        self.vols = [0.015, 0.0, 0.03]
        self.state = {'rates': [0.02] * 3, 'fwd': 2, 'model': (0, 3, 0)}
        self.real = self.fresh()
        self.sib = self.fresh()

    def zero(self, k):
        p = self.p
        return self.dcf.ZeroRateCurve([p[0], p[2], p[5]], [
            0.01 * k, -0.01, 0.03], origin=p[0], forward_tenor=TENOR[self.ax])

    def model(self, m):
        v, f, s = m
        return self.dcf.models.NormalOptionPayOffModel(
            self.p[v], self.curves[f], self.vols[s])

    def parts(self):
        """names of lists"""
        return {'legs': ('rate', 'option'),
                'nested': ('fixed', 'rate', 'collar')}.get(
                    self.kind, (self.kind,))

    def part(self, kind):
        s, p, dcf = self.state, self.p, self.dcf
        am = [100., -25., 50.]
        if kind == 'fixed':
            return dcf.FixedCashFlowList(self.dates, am)
        if kind in ('rate', 'noorg'):
            kw = {} if kind == 'noorg' else {'origin': p[0]}
            x = dcf.RateCashFlowList(self.dates, am, fixed_rate=s['rates'][0],
                                     forward_curve=self.curves[s['fwd']],
                                     **kw)
        elif kind == 'collar':
            x = dcf.ContingentRateCashFlowList(
                self.dates, am, origin=p[0], fixed_rate=s['rates'][0],
                cap_strike=0.025, floor_strike=0.01,
                payoff_model=self.model(s['model']))
        elif kind == 'option':
            return dcf.OptionCashflowList(
                self.dates, am, 0.02, [True, False, False],
                fixing_offset=OFF[self.ax],
                payoff_model=self.model(s['model']))
        else:
            return dcf.OptionStrategyCashflowList(
                self.dates, [1., -2.], [0.01, 0.02], [1.], [0.015],
                payoff_model=self.model(s['model']))
        if len(set(s['rates'])) > 1:
            for d, r in zip(self.dates, s['rates']):
                x.payoff(d).fixed_rate = r
        return x

    def fresh(self):
        xs = [self.part(k) for k in self.parts()]
        if self.kind == 'legs':
            return self.dcf.CashFlowLegList(xs)
        if self.kind == 'nested':
            return self.dcf.CashFlowLegList(
                [self.dcf.CashFlowLegList(xs[:2]), xs[2]])
        return xs[0]

    def ops(self):
        res = []
        k = ' '.join(self.parts())
        if 'rate' in k or 'noorg' in k or 'collar' in k:
            res += [('rate', 0.05), ('rate', 0.0), ('rates', (.01, .02, .04))]
        if 'rate' in k or 'noorg' in k:
            res += [('fwd', i) for i in (0, 1, 3)]
        if 'collar' in k or 'option' in k or 'strategy' in k:
            res += [('model', m) for m in ((2, 3, 0), (0, 2, 2), (0, 1, 1))]
            res += [('modelset', m) for m in ((1, 3, 2),)]
        res += [('price', f) for f in ('ytm', 'fair', 'bpv', 'delta',
                                       'accrued')]
        p = self.p
        return res + [('edit', (2, p[2])), ('edit', (3, p[1])),
                      ('edit', ('disc', p[4]))]

    def leaves(self):
        def f(x):
            return [z for y in x.legs for z in f(y)] if hasattr(
                x, 'legs') else [x]
        return f(self.real)

    def step(self, op):
        k, a = op
        s = self.state
        for x in self.leaves():
            if k == 'rate' and hasattr(x, 'fixed_rate'):
                x.fixed_rate = a
            if k == 'rates' and hasattr(x, 'fixed_rate'):
                for d, r in zip(self.dates, a):
                    x.payoff(d).fixed_rate = r
            if k == 'fwd' and hasattr(x, 'forward_curve'):
                x.forward_curve = self.curves[a]
            if k == 'model' and hasattr(x, 'payoff_model'):
                x.payoff_model = self.model(a)
            if k == 'modelset' and hasattr(x, 'payoff_model'):
                m = x.payoff_model
                m.valuation_date = self.p[a[0]]
                m.forward_curve = self.curves[a[1]]
                m.volatility_curve = self.vols[a[2]]
        if k == 'edit':
            c = self.disc if a[0] == 'disc' else self.curves[a[0]]
            c[a[1]] = 0.07
        if k == 'rate':
            s['rates'] = [a] * 3
        elif k == 'rates':
            s['rates'] = list(a)
        elif k == 'fwd':
            s['fwd'] = a
        elif k in ('model', 'modelset'):
            s['model'] = a
        elif k == 'price':
            self.price(self.real, a)

    def price(self, x, f):
        d, v = self.dcf, self.p[0]
        if f == 'ytm':
            return read(lambda: d.get_yield_to_maturity(
                x, v, present_value=1., bounds=(-.5, .5)))
        if f == 'fair':
            return read(lambda: d.get_fair_rate(x, self.disc, v))
        if f == 'bpv':
            return read(lambda: d.get_basis_point_value(
                x, self.disc, v, [self.disc, self.curves[2]]))
        if f == 'delta':
            return read(lambda: d.get_bucketed_delta(
                x, self.disc, v, self.disc, [self.p[1], self.p[4]]))
        return read(lambda: d.get_interest_accrued(x, self.q[3]))

    def plan(self, x):
        p, q, d = self.p, self.q, self.dcf
        yield 'domain', lambda: list(map(str, x.domain))
        for y in x.domain:
            yield ('flow', y), lambda y=y: x[y]
        yield 'call', x
        yield 'call with curve', lambda: x(self.curves[3])
        yield 'table', lambda: [[z for z in row if not hasattr(z, 'domain')]
                                for row in x.table]
        yield 'rate', lambda: getattr(x, 'fixed_rate', None)
        for v in (None, p[0], p[2], q[3]):
            yield ('pv', v), lambda v=v: d.get_present_value(x, self.disc, v)
            yield ('accrued', v), lambda v=v: \
                d.get_interest_accrued(x, v)
        yield 'bpv', lambda: self.price(x, 'bpv')
        yield 'flows', lambda: [x[y] for y in x.domain]

    def fill(self):
        pass


class ModelCase(object):
    def __init__(self, sc):
        import dcf
        self.dcf = dcf
        self.kind, self.ax = sc['kind'], sc['axis']
        p, _ = axis(self.ax)
        self.p = p
        self.fwd = [100., dcf.DateCurve([p[0], p[5]], [90., 120.]),
                    dcf.ForwardCurve([p[1], p[3]], [100., 95.],
                                     yield_curve=.02),
                    dcf.CashRateCurve([p[0], p[4]], [3., 5.],
                                      forward_tenor=TENOR[self.ax])]
        self.vol = [.2, 0.0, dcf.DateCurve([p[0], p[5]], [.3, .1],
                                           day_count=act360),
                    dcf.TerminalVolatilityCurve([p[0], p[5]], [.2, .15])]
        if self.kind.endswith('Normal') and 'Log' not in self.kind:
            self.vol[0] = 20.
        self.state = dict(valuation_date=p[0], forward_curve=self.fwd[1],
                          volatility_curve=self.vol[0], day_count=None,
                          bump_greeks=None)
        if 'Displaced' in self.kind:
            self.state['displacement'] = 5.
        self.real = self.fresh()
        self.sib = self.fresh()

    def fresh(self):
        s = dict(self.state)
        return getattr(self.dcf.models, self.kind + 'OptionPayOffModel')(**s)

    def ops(self):
        res = [('valuation_date', self.p[2]), ('valuation_date', self.p[4])]
        res += [('forward_curve', f) for f in self.fwd]
        res += [('volatility_curve', f) for f in self.vol]
        res += [('day_count', act360), ('day_count', bent),
                ('bump_greeks', True)]
        res += [('edit', c, self.p[i], x) for c, i, x in (
            (self.fwd[1], 0, 85.), (self.fwd[1], 5, 130.),
            (self.fwd[2], 1, 105.), (self.fwd[3], 4, 8.),
            (self.vol[2], 5, .2), (self.vol[3], 5, .25))]
        if 'Displaced' in self.kind:
            res += [('displacement', 0.), ('displacement', 20.)]
        return res

    def step(self, op):
        if op[0] == 'edit':
            op[1][op[2]] = op[3]
            return
        setattr(self.real, *op)
        self.state[op[0]] = op[1]

    def plan(self, x):
        for d in (self.p[2], self.p[3], self.p[5]):
            for k in (None, 80., 110.):
                for f in ('value', 'delta', 'gamma', 'vega', 'theta'):
                    for c in ('call', 'put'):
                        f_ = 'get_%s_%s' % (c, f)
                        yield (f_, d, k), lambda f=f_, d=d, k=k: \
                            getattr(x, f)(d, k)

    def fill(self):
        self.step(('volatility_curve', self.vol[3]))


CASES = {'curve': CurveCase, 'list': ListCase, 'model': ModelCase}


def look(case, x, back=False):
    res = []
    for k, f in list(case.plan(x))[::-1 if back else 1]:
        res.append((k, read(f)))
    return res[::-1] if back else res


def compare(ctx, a, b, hist, what):
    for (k, x), (_, y) in zip(a, b):
        ctx.ok(same(x, y), '%s %s after %s: %s, %s', k, what, hist, x, y)


def probe(sc, ctx):
    """each quantity is read right before and after each edit"""
    n = len(CASES[sc['what']](sc).ops())
    if sc['first'] >= n:
        return
    for full in (False, True):
        num = 1
        i = 0
        while i < num:
            c = CASES[sc['what']](sc)
            if full:
                c.fill()
            op = c.ops()[sc['first']]
            plan = list(c.plan(c.real))
            num = len(plan)
            k, f = plan[i]
            a = read(f)
            ctx.ok(same(a, read(f)), '%s differs if read again', k)
            c.step(op)
            x, y = read(f), read(list(c.plan(c.fresh()))[i][1])
            ctx.ok(same(x, y), '%s read before and after %s (all set: %s) '
                   'differs from new one: %s, %s', k, op, full, x, y)
            ctx.trans()
            ctx.state(full, i)
            ctx.trace()
            i += 1


def run(sc, ctx):
    case = CASES[sc['what']]
    if sc.get('probe'):
        return probe(sc, ctx)
    n = len(case(sc).ops())
    assert n <= OPS
    if sc['first'] >= n:
        return
    for rest in itertools.product(range(n), repeat=sc['depth'] - 1):
        c = case(sc)
        sib0 = look(c, c.sib)
        hist = []
        if not rest[0] or sc['first'] == 0:
            compare(ctx, look(c, c.real), look(c, c.fresh()), 'nothing',
                    'differs from new one')
        for k in (sc['first'],) + rest:
            op = c.ops()[k]
            hist.append(op)
            c.step(op)
            ctx.trans()
            if len(hist) < sc['depth'] and not ctx.state(str(hist)):
                look(c, c.real)  # fill what may be remembered
                continue
            a = look(c, c.real)
            compare(ctx, a, look(c, c.fresh()), hist, 'differs from new one')
            compare(ctx, look(c, c.real, True), a, hist,
                    'differs if read again')
        ctx.state('end', str(hist))
        if not any(op[0] == 'edit' for op in hist):  # of shared curves
            compare(ctx, look(c, c.sib), sib0, hist,
                    'of other object changed')
        ctx.trace()
