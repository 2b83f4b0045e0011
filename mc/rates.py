"""reference model of rate curves (interest, credit): the factor between two
dates, its annual rate, short rate and tenor rate for every representation"""
from math import exp, log

from .fam import FAM
from .ref import RCurve, tau

DAY = '1D'


class RRate(RCurve):
    def __init__(self, cls, points, origin, kind=None, dc=tau, tenor=None,
                 spread=None, fix=None):
        self.cls, self.tenor = cls, tenor
        super().__init__(points, kind or FAM[cls][0], origin, dc, spread, fix)

    def with_(self, **kw):
        a = dict(cls=self.cls, points=self.points, kind=self.kind,
                 origin=self.origin, dc=self.dc, tenor=self.tenor,
                 spread=self.spread, fix=self.fix)
        a.update(kw)
        return RRate(**a)

    def lograte(self, s, t):
        """-log of the factor between s and t"""
        if s == t:
            return 0.0
        c = self.cls
        if c in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                 'DefaultProbabilityCurve'):
            # the origin counts as 1 (even if there is another value given)
            return (0.0 if s == self.origin else log(self(s))) - log(self(t))
        if c in ('ZeroRateCurve', 'FlatIntensityCurve'):
            return self(t) * self.dc(self.origin, t) - \
                self(s) * self.dc(self.origin, s)
        if c in ('ShortRateCurve', 'HazardRateCurve'):
            r, x = 0.0, s
            while x < t:
                y = min(x + DAY, t)
                r += self(x) * self.dc(x, y)
                x = y
            return r
        if c == 'CashRateCurve':
            r, x = 0.0, s
            while x < t:
                y = min(x + self.tenor, t)
                r += log(1. + self(x) * self.dc(x, y))
                x = y
            return r
        if c in ('MarginalSurvivalProbabilityCurve',
                 'MarginalDefaultProbabilityCurve'):
            r, x = 0.0, s
            while x < t:
                full = x + self.tenor
                y = min(full, t)
                r += -log(self(x)) * self.dc(x, y) / self.dc(x, full)
                x = y
            return r
        raise KeyError(c)

    def df(self, s, t):
        return exp(-self.lograte(s, t))

    def zero(self, s, t):
        return self.lograte(s, t) / self.dc(s, t)

    def cash(self, s, t):
        return (exp(self.lograte(s, t)) - 1.) / self.dc(s, t)

    def short(self, x):
        if self.cls in ('ShortRateCurve', 'HazardRateCurve'):
            return self(x)
        g = sorted(d for d, _ in self.points)
        if self.cls.startswith('Marginal') and g[-1] <= x:
            return self.zero(g[-1], g[-1] + DAY)
        if self.cls.startswith('Marginal') and len(g) == 1:
            return self.short(g[0])
        if len(g) == 1:
            if g[0] == self.origin:
                return self.instant()
            return self.zero(self.origin, g[0])
        if x < g[0]:
            x = g[0]
        i = max(k for k, d in enumerate(g) if d <= x)
        i = min(i, len(g) - 2)
        return self.zero(g[i], g[i + 1])

    def stored(self, x, cls, tenor=None):
        """what a curve of type cls stores at x to represent this one"""
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                   'DefaultProbabilityCurve'):
            return self.df(self.origin, x)
        if cls in ('ZeroRateCurve', 'FlatIntensityCurve'):
            if x == self.origin:
                return self.instant()
            return self.zero(self.origin, x)
        if cls in ('ShortRateCurve', 'HazardRateCurve'):
            return self.short(x)
        if cls == 'CashRateCurve':
            if self.cls == 'CashRateCurve' and tenor == self.tenor:
                return self(x)
            return self.cash(x, x + tenor)
        if cls in ('MarginalSurvivalProbabilityCurve',
                   'MarginalDefaultProbabilityCurve'):
            return self.df(x, x + tenor)
        raise KeyError(cls)

    def instant(self):
        """annual rate at the origin"""
        o = self.origin
        if self.cls in ('ZeroRateCurve', 'FlatIntensityCurve',
                        'ShortRateCurve', 'HazardRateCurve',
                        'CashRateCurve'):
            return self(o)
        if self.cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                        'DefaultProbabilityCurve'):
            return self.zero(o, min(d for d, _ in self.points if o < d))
        return self.zero(o, o + DAY)
