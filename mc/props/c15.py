"""C15 rate cashflow lists"""

from ..alpha import MANY, bent, axis, subsets, twin
from ..flows import OFF, TENOR, periods, shift
from ..rates import RRate
from ..ref import RCurve, tau

LEVEL = 'exploration'
RULE = ('every rate cashflow list (plain and contingent without strikes) '
        'over all subsets of 0 to 4 of 6 payment dates x origin x offsets x '
        'day count x amounts x fixed rate x kind of forward curve: schedule '
        'by an independent model, flows by item access, tuple access, call '
        '(own and other curve), single payoffs, table, copies as fixed list '
        'and lists of legs; before and after setting fixed rate and forward '
        'curve')
BOUNDS = {'payment dates': '57 subsets, 3 unsorted sets and 3 '
          'of 15 to 21 dates', 'axes': 4}
ASSUMPTIONS = ['distinct payment dates']
FWD = ('none', 'number', 'one', 'zero', 'lambda', 'datecurve', 'zerocurve',
       'cashcurve', 'dfcurve', 'price', 'deep', 'steep')
ORG = 'none', 'first', 'before', 'equal'
CFG = ('plain', 'dc', 'fix', 'pay', 'both', 'neg', 'allcfg')


def scenarios(tier):
    n = 0
    for ax in ('float', 'int', 'date', 'bd'):
        for fwd in FWD:
            for org in ORG:
                for cfg in CFG:
                    for cls in ('RateCashFlowList',
                                'ContingentRateCashFlowList'):
                        n += 1
                        yield {'axis': ax, 'fwd': fwd, 'origin': org,
                               'cfg': cfg, 'cls': cls,
                               'thin': n % 3 if tier == 'quick' else None}
        yield {'axis': ax, 'legs': 1}


def forward(name, ax, pts):
    """-> argument, model of forward rate, name of table column value"""
    import dcf
    g, z = [pts[1], pts[3], pts[5]], [0.04, -0.01, 0.02]
    ten = TENOR[ax]
    if name == 'none':
        return None, None
    if name == 'number':
        return 0.03, lambda d: 0.03
    if name in ('deep', 'steep'):
        f = -0.75 if name == 'deep' else 40.
        return f, lambda d: f
    if name == 'one':
        return 1, lambda d: 1.
    if name == 'zero':
        return 0.0, lambda d: 0.0
    if name == 'lambda':
        m = RCurve(zip(g, z), 'linear_scheme', pts[1])
        return (lambda d: m(d)), m
    if name in ('datecurve', 'price'):
        cls = dcf.DateCurve
        kind = 'linear_scheme'
        if name == 'price':
            cls, z, kind = dcf.ForwardCurve, [0.04, 0.01, 0.02], \
                'log_linear_scheme'
            m = RCurve(zip(g, z), kind, pts[1])
            return cls(g, z), m
        return cls(g, z), RCurve(zip(g, z), kind, pts[1])
    if name == 'zerocurve':
        m = RRate('ZeroRateCurve', zip(g, z), pts[0], tenor=ten)
        return dcf.ZeroRateCurve(g, z, origin=pts[0], forward_tenor=ten), \
            lambda d: m.cash(d, d + ten)
    if name == 'dfcurve':
        y = [0.99, 0.95, 0.8]
        m = RRate('DiscountFactorCurve', zip(g, y), pts[0], tenor=ten)
        return dcf.DiscountFactorCurve(g, y, origin=pts[0],
                                       forward_tenor=ten), \
            lambda d: m.cash(d, d + ten)
    m = RRate('CashRateCurve', zip(g, z), pts[0], tenor=ten)
    return dcf.CashRateCurve(g, z, origin=pts[0], forward_tenor=ten), m


def dates_of(ax, pts, thin):
    idx = [s for k in range(0, 5) for s in subsets((1, 2, 3, 4, 5, 6), k, k)]
    if thin is not None:
        idx = [s for i, s in enumerate(idx) if i % 3 == thin or len(s) < 2]
    if thin in (None, 1):
        idx.append(tuple(range(1, 100)))
    return idx + [(4, 1, 3), (5, 2), (6, 3, 4, 1)] + list(MANY)


def table(x):
    t = x.table
    return [dict(zip(t[0], r)) for r in t[1:]], t[0]


def run(sc, ctx):
    import dcf
    ax = sc['axis']
    pts, qs = axis(ax, many=100)
    if 'legs' in sc:
        return legs(ax, pts, qs, ctx)
    off, cfg = OFF[ax], sc['cfg']
    if ax == 'bd' and cfg == 'neg':
        return
    for idx in dates_of(ax, pts, sc['thin']):
        dates = [pts[i] for i in idx]
        if sc['origin'] == 'none' and list(idx) != sorted(idx):
            continue
        o = {'none': None, 'first': pts[0], 'before': qs[0],
             'equal': dates[0] if dates else pts[0]}[sc['origin']]
        kw, dc, fix, pay = {}, tau, None, None
        if o is not None:
            kw['origin'] = o
        if cfg in ('dc', 'allcfg'):
            kw['day_count'] = dc = bent
        if cfg in ('fix', 'both', 'allcfg'):
            kw['fixing_offset'] = fix = off
        if cfg in ('pay', 'both', 'allcfg'):
            kw['pay_offset'] = pay = off
        if cfg == 'neg':
            kw['fixing_offset'] = fix = -off
        rate = 0.0
        if cfg not in ('plain', 'fix'):
            kw['fixed_rate'] = rate = 0.0125
        am = ([100., -25., 4096., 0.0] * 25)[:len(dates)]
        arg = am
        if cfg == 'pay':
            am, arg = [40.0] * len(dates), 40
        if cfg == 'dc':
            am, arg = [1.0] * len(dates), None
        a = [] if arg is None else [arg]
        fwd, m = forward(sc['fwd'], ax, pts)
        if sc['cls'] == 'RateCashFlowList':
            real = dcf.RateCashFlowList(dates, *a, forward_curve=fwd, **kw)
        elif m is None:
            real = dcf.ContingentRateCashFlowList(dates, *a, **kw)
        else:
            real = dcf.ContingentRateCashFlowList(
                dates, *a, payoff_model=dcf.models.NormalOptionPayOffModel(
                    pts[0], fwd, 0.01), **kw)
        per = periods(dates, o) if dates else []
        if pay:
            per = [(shift(s, pay), shift(e, pay)) for s, e in per]
        fx = [shift(s, fix) if fix else s for s, _ in per] \
            if cfg != 'neg' else [s + off for s, _ in per]
        one(ctx, real, dates, am, per, fx, dc, rate, m, o, qs)
        ctx.case(str(idx))
        if not dates:
            continue
        # set the fixed rate of the list
        real.fixed_rate = 0.07
        one(ctx, real, dates, am, per, fx, dc, 0.07, m, o, qs)
        # and of a single payoff
        real.payoff(dates[-1]).fixed_rate = 0.01
        want = [n * dc(s, e) * ((m(f) if m else 0.) + 0.07)
                for n, (s, e), f in zip(am, per, fx)]
        s, e = per[-1]
        want[-1] = am[-1] * dc(s, e) * ((m(fx[-1]) if m else 0.) + 0.01)
        ctx.close(list(real[dates]), want, 'flows with single rate',
                  abs_=1e-9)
        if len(dates) > 1:
            ctx.ok(real.fixed_rate is None, 'fixed rate %s', real.fixed_rate)
        real.fixed_rate = rate
        ctx.close(real.fixed_rate, rate, 'fixed rate')
        # other curve in place of its own
        if sc['cls'] == 'RateCashFlowList':
            want = [n * dc(s, e) * (0.055 + rate)
                    for n, (s, e) in zip(am, per)]
            ctx.close(list(real(0.055)[dates]), want, 'called by number')
            m2 = RCurve([(pts[0], .01), (pts[4], .05)], 'linear_scheme',
                        pts[0])
            c2 = dcf.DateCurve([pts[0], pts[4]], [.01, .05])
            want = [n * dc(s, e) * (m2(f) + rate)
                    for n, (s, e), f in zip(am, per, fx)]
            ctx.close(list(real(c2)[dates]), want, 'called by curve')
            ctx.close([real.payoff(d)(c2) for d in dates], want,
                      'payoff called by curve')
            one(ctx, real, dates, am, per, fx, dc, rate, m, o, qs)
            real.forward_curve = c2
            one(ctx, real, dates, am, per, fx, dc, rate, m2, o, qs)
            real.forward_curve = None
            one(ctx, real, dates, am, per, fx, dc, rate, None, o, qs)
    ctx.sample({k: str(v) for k, v in kw.items()})


def one(ctx, real, dates, am, per, fx, dc, rate, m, o, qs):
    import dcf
    want = [n * dc(s, e) * ((m(f) if m else 0.) + rate)
            for n, (s, e), f in zip(am, per, fx)]
    ctx.ok(list(real.domain) == dates, 'dates %s', real.domain)
    ctx.close(list(real[dates]), want, 'flows at %s', dates)
    ctx.close([real[twin(d)] for d in dates], want, 'flow at each date')
    for q in [q for q in qs[:4] if q not in dates]:
        ctx.ok(real[q] == 0, 'flow at other date')
    flat = real()
    ctx.close(list(flat[dates]), want, 'called')
    ctx.ok(list(flat.domain) == dates, 'dates of called list')
    fixed = dcf.FixedCashFlowList(real)
    ctx.close(list(fixed[dates]), want, 'copy as fixed cashflows')
    ctx.ok(fixed.origin == real.origin, 'origin of copy')
    if o is not None:
        zero = type(o)(0) if isinstance(o, (int, float)) else qs[0]
        ctx.ok(dcf.FixedCashFlowList(real, origin=zero).origin == zero,
               'given origin of copy')
    rows, head = table(real)
    ctx.ok(len(rows) == len(dates), 'rows of table')
    for r, d, n, (s, e), f, w in zip(rows, dates, am, per, fx, want):
        ctx.close(r['cashflow'], w, 'table at %s', d)
        ctx.ok(r['pay date'] == d and r['start date'] == s and
               r['end date'] == e, 'dates of row %s: %s', d, r)
        ctx.close(r['notional'], n, 'amount of row')
        ctx.close(r['year fraction'], dc(s, e), 'year fraction')
        ctx.close(r['fixed rate'], rate, 'fixed rate')
        if m and r.get('forward rate') is not None:
            ctx.close(r['forward rate'], m(f), 'forward rate')
            ctx.ok(r['fixing date'] == f, 'fixing date %s', r['fixing date'])
        for p in [real.payoff(d)]:
            ctx.ok(p.start == s and p.end == e, 'period of payoff')
            ctx.close(p.amount, n, 'amount of payoff')
    if dates:
        ctx.close(real.fixed_rate, rate, 'fixed rate')
        if o is not None:
            ctx.ok(real.origin == o, 'origin %s', real.origin)
        else:
            ctx.ok(real.origin == dates[0], 'origin %s', real.origin)


def legs(ax, pts, qs, ctx):
    """lists of legs: union of dates, sum of flows"""
    import dcf
    sets = [s for k in (1, 2, 3) for s in subsets((0, 1, 3, 5), k, k)]
    for x in sets:
        for y in sets:
            dx, dy = [pts[i] for i in x], [pts[i] for i in y[::-1]]
            ax_, ay = [3., -1., 100.][:len(x)], [7., 11., -5.][:len(y)]
            a = dcf.FixedCashFlowList(dx, ax_)
            b = dcf.CashFlowList(dy, ay)
            c = dcf.RateCashFlowList([pts[6]], 100., origin=pts[0],
                                     fixed_rate=0.01)
            w = {}
            for d, z in list(zip(dx, ax_)) + list(zip(dy, ay)):
                w[d] = w.get(d, 0.) + z
            r = 1. * tau(pts[0], pts[6])
            ab = dcf.CashFlowLegList([a, b])
            abc = dcf.CashFlowLegList((ab, c))
            for real, want in ((ab, w), (abc, dict(w, **{})),):
                if real is abc:
                    want[pts[6]] = want.get(pts[6], 0) + r
                g = sorted(want)
                f = [want[d] for d in g]
                ctx.ok(list(real.domain) == g, 'dates %s', real.domain)
                ctx.close(list(real[g]), f, 'flows')
                ctx.close([real[d] for d in g], f, 'flow')
                ctx.close(real[qs[2]], 0.0, 'other date')
                ctx.close(list(real()[g]), f, 'called')
                ctx.close(list(dcf.FixedCashFlowList(real)[g]), f, 'fixed')
                rows, _ = table(real)
                ctx.close([q['cashflow'] for q in rows], f, 'table')
                ctx.ok([q['pay date'] for q in rows] == g, 'table dates')
                ctx.ok(len(real.legs) == 2, 'legs')
                ctx.ok(real.origin == (min(dx[0], dy[0]) if real is ab
                                       else pts[0]), 'origin of legs')
            # legs stay as they are
            ctx.close(list(a[dx]), ax_, 'leg')
            ctx.close(list(b[dy]), ay, 'leg')
            ctx.case(x, y)
            real = dcf.CashFlowLegList([a, a])
            ctx.close(list(real[sorted(dx)]),
                      [2 * q for _, q in sorted(zip(dx, ax_))], 'twice')
    # many legs
    for n in (5, 12, 40):
        all_, want = [], {}
        for i in range(n):
            ds = [pts[(3 * i + j) % 30] for j in (0, 4, 11)]
            fs = [i + .5, -2. * i, 100.]
            all_.append((dcf.FixedCashFlowList, dcf.CashFlowList)[i % 2](
                ds, fs))
            for d, f in zip(ds, fs):
                want[d] = want.get(d, 0.) + f
        deep = all_[0]
        for leg in all_[1:]:
            deep = dcf.CashFlowLegList([leg, deep])
        for real in (dcf.CashFlowLegList(all_), deep):
            g = sorted(want)
            f = [want[d] for d in g]
            ctx.ok(list(real.domain) == g, 'dates of %s legs', n)
            ctx.close(list(real[g]), f, '%s legs', n)
            ctx.close(list(real()[g]), f, '%s legs called', n)
        ctx.ok(len(dcf.CashFlowLegList(all_).legs) == n, 'legs')
        ctx.case('many', n)
    ctx.raises(ValueError, lambda: dcf.CashFlowLegList([a, 1.0]), 'no list')
    ctx.raises(ValueError, lambda: dcf.CashFlowList([pts[0]], [1., 2.]),
               'length')
    ctx.raises(ValueError, lambda: dcf.FixedCashFlowList(pts[:2], [1.]),
               'length')
    ctx.close(list(dcf.FixedCashFlowList(pts)[pts]), [1.] * len(pts),
              'default amount')
