"""C20 payment plans"""
from fractions import Fraction as F

LEVEL = 'exploration'
RULE = ('every plan x number of periods x amount x rate: entries, length and '
        'sum compared with exact rational arithmetic; outstanding plans of '
        'all plans (both signs, with amounts other than the total), all '
        'plans of up to 4 entries out of 4 values; annuities have equal '
        'total payments; lists are new ones and arguments stay')
BOUNDS = {'periods': '1..40 (thorough 1..120), 60 to 360', 'amounts': 7, 'rates': 12}
ASSUMPTIONS = ['rates above -1']
AMOUNTS = (1.0, 100.0, -25.0, 0.0, 1e6, 0.125, 7)
RATES = (0.0, 0.01, 0.05, 0.5, 1.0, -0.25, -0.015625, 1e-6, 2.5,
         5e-7, -5e-7, 1e-5)


def scenarios(tier):
    for n in range(1, 41 if tier == 'quick' else 121):
        for a in AMOUNTS:
            yield {'n': n, 'amount': a}
    for n in (60, 120, 121, 240, 360):
        for a in AMOUNTS[:4]:
            yield {'n': n, 'amount': a}
    for n in range(1, 5):
        yield {'all': n}


def run(sc, ctx):
    from dcf import plans
    if 'all' in sc:
        import itertools
        for p in itertools.product((0., 1., -2.5, 0.375), repeat=sc['all']):
            for a in AMOUNTS:
                out(ctx, plans, list(p), a)
        return
    n, a = sc['n'], sc['amount']
    fa = F(a)
    res = {'same': plans.same(n, a), 'bullet': plans.bullet(n, a),
           'amortize': plans.amortize(n, a)}
    want = {'same': [fa] * n, 'bullet': [F(0)] * (n - 1) + [fa],
            'amortize': [fa / n] * n}
    for r in RATES:
        res['annuity', r] = plans.annuity(n, a, r)
        res['consumer', r] = plans.consumer(n, a, r)
        q = 1 + F(r)
        s = sum(q ** i for i in range(n))
        want['annuity', r] = [fa * q ** i / s for i in range(n)]
        want['consumer', r] = [fa * (1 + n * F(r)) / n] * n
        # interest on outstanding and redemption are equal in each period
        x = res['annuity', r]
        o = plans.outstanding(x, a)
        tot = [u * r + v for u, v in zip(o, x)]
        ctx.close(tot, [tot[0]] * n, 'annuity %s %s', n, r, rel=1e-7,
                  abs_=1e-9 * abs(a))
        ctx.close(sum(x), a, 'annuity total %s %s', n, r, rel=1e-9)
    for k, w in want.items():
        # q ** n - 1 looses digits for tiny rates
        tiny = isinstance(k, tuple) and k[0] == 'annuity' and \
            0 < abs(k[1]) < 1e-3
        w = [float(y) for y in w]
        ctx.ok(isinstance(res[k], list) and len(res[k]) == n,
               '%s: length %s', k, res[k])
        ctx.close(res[k], w, '%s of %s for %s', k, n, a,
                  rel=1e-8 if tiny else 1e-10)
        out(ctx, plans, res[k], a)
        out(ctx, plans, res[k], a * 2 + 1)
        ctx.case(k)
    # number of periods as float
    ctx.close(plans.same(float(n), a), want['same'], 'float number')
    ctx.close(plans.bullet(float(n), a), want['bullet'], 'float number')
    ctx.close(plans.amortize(float(n), a), res['amortize'], 'float number')
    # defaults
    ctx.close(plans.same(n), [1.] * n, 'default')
    ctx.close(plans.bullet(n), [0.] * (n - 1) + [1.], 'default')
    ctx.close(plans.amortize(n), [1. / n] * n, 'default')
    ctx.close(plans.annuity(n), plans.annuity(n, 1., 0.01), 'default')
    ctx.close(plans.consumer(n), plans.consumer(n, 1., 0.01), 'default')
    ctx.sample({'annuity': res['annuity', 0.05][:3]})


def out(ctx, plans, p, a):
    given = list(p)
    for sign in (False, True):
        o = plans.outstanding(p, a, sign)
        s, x = (1 if sign else -1), F(a)
        ctx.ok(len(o) == len(p), 'length of outstanding')
        w = []
        for y in p:
            w.append(float(x))
            x += s * F(y)
        ctx.close(o, w, 'outstanding %s %s', a, sign,
                  abs_=1e-12 * (abs(a) + sum(map(abs, p))))
    ctx.ok(given == p, 'plan changed')
    ctx.close(plans.outstanding(p, a), plans.outstanding(p, a, False),
              'default sign')
    w = plans.outstanding(p)
    ctx.close(w[0], 1.0, 'default amount')
