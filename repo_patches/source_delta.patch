From 49e95dccd10164c0ae3c2ee57c06b482112d3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 01/53] fix: interpolation from_dict builds a list of values
 for log interpolation

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..6bcc894 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From 4ac4c26da91d2c00e1833b7e50de764f904fa4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 02/53] fix: log rate interpolation is exp(0)=1 at zero if no
 value is given there

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 6bcc894..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From 1eaee8730e8bdf1c4ac44f432055e8adfc28dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 03/53] fix: log_linear_scheme can be looked up by its name

---
 dcf/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 0c1bcc3..eafe407 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -579,6 +579,7 @@ linear_scheme = constant_linear_constant
 
 logconstant_loglinear_logconstant = \
     _dyn_scheme(constant, loglinear, constant)
+constant_loglinear_constant = logconstant_loglinear_logconstant
 log_linear_scheme = logconstant_loglinear_logconstant
 
 logconstantrate_loglinearrate_logconstantrate = \
-- 
2.43.0


From 777c4c39d88bea45f83f12825875f5768a80acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 04/53] fix: curve kwargs keep functions which can not be
 looked up by name

---
 dcf/curves/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..4c9a4e3 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -157,7 +157,10 @@ class Curve(object):
         for name in signature(self.__class__).parameters:
             attr = self(self.domain) if name == 'data' else None
             attr = getattr(self, '_' + name, attr)
-            attr = getattr(attr, '__name__', attr)
+            # give function name only if it can be looked up by its name
+            attr_name = getattr(attr, '__name__', None)
+            if attr_name and vars(_interpolations).get(attr_name) is attr:
+                attr = attr_name
             if attr is not None:
                 kw[name] = attr
             setattr(kw, name, attr)
-- 
2.43.0


From 443e5df730308d712cd9872dabcd80443c9dec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 05/53] fix: casting a curve keeps origin, day count and
 forward tenor

---
 dcf/curves/curve.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 4c9a4e3..522d343 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -239,7 +239,7 @@ class Curve(object):
             domain = data.domain
         if isinstance(data, Curve):
             interpolation = \
-                interpolation or data.kwargs.get('interpolation', None)
+                interpolation or data._interpolation
             _data = data(domain)  # assuming domain is a list of dates !
             if isinstance(data, DateCurve):
                 domain = [data.day_count(d) for d in domain]
@@ -426,10 +426,10 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
-            day_count = day_count or data.kwargs.day_count
+        if isinstance(data, DateCurve):
+            interpolation = interpolation or data._interpolation
+            origin = data.origin if origin is None else origin
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
@@ -740,8 +740,10 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
-            day_count = day_count or other.kwargs.day_count
+            origin = other.origin if origin is None else origin
+            day_count = day_count or other._day_count
+            forward_tenor = other._forward_tenor \
+                if forward_tenor is None else forward_tenor
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
-- 
2.43.0


From 9b195206dff7f0b6d3af3762acff622d26685e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 06/53] fix: curve arithmetic keeps origin, day count,
 interpolation and tenor

---
 dcf/curves/curve.py | 55 ++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 522d343..3b9e28d 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -294,17 +294,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -312,7 +312,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(list(self.domain) + list(other.domain)))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
@@ -467,29 +467,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), self._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), self._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), self._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), self._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
@@ -757,20 +754,32 @@ class RateCurve(DateCurve):
         return super().__call__(x) + s
 
     def __add__(self, other):
-        new = super(RateCurve, self).__add__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        if not isinstance(other, self.__class__):
+            other = self.__class__(other)
+        new = super(RateCurve, self).__add__(other)
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __sub__(self, other):
-        new = super(RateCurve, self).__sub__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        if not isinstance(other, self.__class__):
+            other = self.__class__(other)
+        new = super(RateCurve, self).__sub__(other)
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __mul__(self, other):
-        new = super(RateCurve, self).__mul__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        if not isinstance(other, self.__class__):
+            other = self.__class__(other)
+        new = super(RateCurve, self).__mul__(other)
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def __div__(self, other):
-        new = super(RateCurve, self).__div__(self.__class__(other))
-        return self.__class__(new, forward_tenor=self._forward_tenor)
+        if not isinstance(other, self.__class__):
+            other = self.__class__(other)
+        new = super(RateCurve, self).__div__(other)
+        new._forward_tenor = self._forward_tenor
+        return new
 
     def _get_compounding_factor(self, start, stop):
         # aka discount factor
-- 
2.43.0


From c948068f12cde251fef173de4b2a17fa4e20b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 07/53] fix: setting a curve point does not store spreads or
 fixings at other points

---
 dcf/curves/curve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 3b9e28d..b0df9aa 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -267,6 +267,10 @@ class Curve(object):
         self._func = func(domain, data)
         self._domain = domain
 
+    def _get_data(self):
+        # given values at domain points
+        return [self._func(x) for x in self.domain]
+
     def __contains__(self, item):
         return item in self.domain
 
@@ -280,7 +284,7 @@ class Curve(object):
 
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = self._get_data()
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -457,6 +461,10 @@ class DateCurve(Curve):
         super()._update(flt_domain, data)
         self._domain = domain
 
+    def _get_data(self):
+        # given values at domain points (without fixings and spreads)
+        return [self._func(self.day_count(x)) for x in self.domain]
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return tuple(self(xx) for xx in x)
-- 
2.43.0


From 4b54ff661c1b3cdd0565e2765421fe29933320af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 08/53] fix: forward curves extrapolate from the last date even
 if the domain is unsorted

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b0df9aa..fd8c82a 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -642,7 +642,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..0f81277 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
-- 
2.43.0


From 184831be9de849d6f1e610ccef94a080aed1fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 09/53] fix: iterating over a curve iterates over its domain

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index fd8c82a..cde6c32 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -275,7 +275,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From 3cbf13e0bbe39c7de9607654107b2d148938c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 10/53] fix: rate table of curves without origin, unsorted or
 single point domain

---
 dcf/curves/curve.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index cde6c32..d47558c 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -73,12 +73,13 @@ def rate_table(curve, x_grid=None, y_grid=None):
 
     """  # noqa: E501
     if x_grid is None:
-        x_grid = list(curve.domain)
-        if curve.origin not in x_grid:
-            x_grid = [curve.origin] + x_grid
+        x_grid = sorted(curve.domain)
+        origin = getattr(curve, 'origin', x_grid[0])
+        if origin not in x_grid:
+            x_grid = sorted([origin] + x_grid)
     if y_grid is None:
         diff = list(e-s for s, e in zip(x_grid[:-1], x_grid[1:]))
-        step = diff[0]
+        step = diff[0] if diff else x_grid[0] - x_grid[0]
         y_grid = [step * 0]
         for span in diff:
             line = [step]
@@ -92,9 +93,9 @@ def rate_table(curve, x_grid=None, y_grid=None):
     grid = list()
     grid.append(('',) + tuple(y_grid))
     for i, x in enumerate(x_grid):
-        lst = x_grid[i+1] if i < len(x_grid)-1 \
-            else x_grid[-1] + y_grid[-1] + y_grid[-1]
-        grid.append(((x,) + tuple(curve(x+y) for y in y_grid if x + y < lst)))
+        lst = x_grid[i+1] if i < len(x_grid)-1 else None
+        grid.append(((x,) + tuple(curve(x+y) for y in y_grid
+                                  if lst is None or x + y < lst)))
 
     return grid
 
-- 
2.43.0


From 73b70c8146b9cec2f4114fcfef1dfd6971f10733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 11/53] fix: swap annuity uses consecutive dates as periods

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 2bb10724278c5bc7ec297206c24d8e345e9070f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 12/53] fix: cash rate of a period differing from the tenor
 does not recurse for ever

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 61d5eaa4c9db59d5c50a9dc0d857498e26121e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 13/53] fix: short rate and hazard rate at the end of the
 domain do not recurse for ever

---
 dcf/curves/creditcurve.py       | 8 ++++----
 dcf/curves/interestratecurve.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..0c27341 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -120,12 +120,12 @@ class CreditCurve(RateCurve):
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
 
-        if start < min(self.domain):
-            return self.get_hazard_rate(min(self.domain))
+        if len(self.domain) == 1:
+            return self._get_compounding_rate(self.origin, max(self.domain))
         if max(self.domain) <= start:
-            return self.get_hazard_rate(
-                max(self.domain) - self._TIME_SHIFT)
+            return self.get_flat_intensity(*sorted(self.domain)[-2:])
 
+        start = max(start, min(self.domain))
         previous = max(d for d in self.domain if d <= start)
         follow = min(d for d in self.domain if start < d)
         if not previous <= start <= follow:
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..f1ae1a3 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,12 +143,12 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
-        if start < min(self.domain):
-            return self.get_short_rate(min(self.domain))
+        if len(self.domain) == 1:
+            return self._get_compounding_rate(self.origin, max(self.domain))
         if max(self.domain) <= start:
-            return self.get_short_rate(
-                max(self.domain) - self._TIME_SHIFT)
+            return self.get_zero_rate(*sorted(self.domain)[-2:])
 
+        start = max(start, min(self.domain))
         previous = max(d for d in self.domain if d <= start)
         follow = min(d for d in self.domain if start < d)
         if not previous <= start <= follow:
-- 
2.43.0


From 124661a692373ff109b7f3912169bb97f5232c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 14/53] fix: flat intensity of an empty period

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 0c27341..c57f93c 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From 2be722976f29d43ddf92d81f849fd5b4b231670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 15/53] fix: kwargs of default probability curves give default
 probabilities as data

---
 dcf/curves/creditcurve.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index c57f93c..875e3d7 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -211,6 +211,11 @@ class DefaultProbabilityCurve(SurvivalProbabilityCurve):
                                                       interpolation, origin,
                                                       day_count, forward_tenor)
 
+    @property
+    def _data(self):
+        # default probabilities as given to constructor (see kwargs)
+        return tuple(1. - d for d in self(self.domain))
+
 
 class FlatIntensityCurve(CreditCurve):
     r"""Credit curve storing and interpolating data as intensities
@@ -338,3 +343,8 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
             data = [1. - d for d in data]
         super(MarginalDefaultProbabilityCurve, self).__init__(
             domain, data, interpolation, origin, day_count, forward_tenor)
+
+    @property
+    def _data(self):
+        # default probabilities as given to constructor (see kwargs)
+        return tuple(1. - d for d in self(self.domain))
-- 
2.43.0


From 572ccb791f3fd142e9d482ead6a889783bd58b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 16/53] fix: kwargs of forward curves give yield, domestic and
 foreign curve

---
 dcf/curves/curve.py | 14 +++++++++-----
 dcf/curves/fx.py    | 10 ++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d47558c..690cad0 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -621,13 +621,14 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
-            yc = (lambda x: exp(-self.day_count(x) * yield_curve))
-        else:
-            yc = yield_curve
-        self.yield_curve = yc
+        self.yield_curve = yield_curve
         """ yield curve for extrapolation using discount factors """
 
+    @property
+    def _yield_curve(self):
+        # yield curve as given to constructor (see kwargs)
+        return self.yield_curve
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return [self(xx) for xx in x]
@@ -651,6 +652,9 @@ class ForwardCurve(DateCurve):
             df = 1.0
         elif hasattr(self.yield_curve, 'get_discount_factor'):
             df = self.yield_curve.get_discount_factor(last_date, value_date)
+        elif isinstance(self.yield_curve, (int, float)):
+            t = self.day_count(last_date, value_date)
+            df = exp(-t * self.yield_curve)
         else:
             df = self.yield_curve(value_date) / self.yield_curve(last_date)
 
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 0f81277..2588f5b 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -27,6 +27,16 @@ class FxForwardCurve(ForwardCurve):
         self.domestic_curve = domestic_curve
         self.foreign_curve = foreign_curve
 
+    @property
+    def _domestic_curve(self):
+        # domestic curve as given to constructor (see kwargs)
+        return self.domestic_curve
+
+    @property
+    def _foreign_curve(self):
+        # foreign curve as given to constructor (see kwargs)
+        return self.foreign_curve
+
     def get_forward_price(self, value_date):
         last_date = max(self.domain)
         if value_date <= last_date:
-- 
2.43.0


From 71a6de066671a560b332a901cf6ec0f65bb14fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 17/53] fix: fx container keeps reverse and cross rates
 consistent when adding currencies

---
 dcf/curves/fx.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 2588f5b..f4776c9 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -175,28 +175,22 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and d != foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From d37188a427ea397e0662d9a80a51564b3fe41b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 18/53] fix: pricer functions restore curves, models and fixed
 rates if valuation fails

---
 dcf/pricer.py | 117 +++++++++++++++++++++++++++++---------------------
 1 file changed, 69 insertions(+), 48 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..b2e45fa 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -94,23 +94,25 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
 
+    # store and set valuation date to payoff_model
+    model = getattr(cashflow_list, 'payoff_model', None)
+    model_valuation_date = getattr(model, 'valuation_date', None)
+    try:
+        if hasattr(model, 'valuation_date'):
+            model.valuation_date = valuation_date
+        flows = cashflow_list[pay_dates]
+    finally:
+        # re-store model_valuation_date
+        if hasattr(model, 'valuation_date'):
+            model.valuation_date = model_valuation_date
+
     # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
+    value_flows = zip(pay_dates, flows)
     values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
               for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
     return sum(values)
 
 
@@ -350,6 +352,10 @@ def get_fair_rate(cashflow_list, discount_curve,
     """  # noqa 501
     # store fixed rate
     fixed_rate = cashflow_list.fixed_rate
+    payoff_rates = list(
+        (cf, cf.fixed_rate)
+        for cf in map(cashflow_list.payoff, cashflow_list.domain)
+        if hasattr(cf, 'fixed_rate'))
 
     # set error function
     def err(current):
@@ -358,10 +364,13 @@ def get_fair_rate(cashflow_list, discount_curve,
         return pv - present_value
 
     # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rate
+        cashflow_list.fixed_rate = fixed_rate
+        for cf, rate in payoff_rates:
+            cf.fixed_rate = rate
     return par
 
 
@@ -421,11 +430,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    shifted = list()
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+            shifted.append(d)
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in shifted:
+            d.spread = None
 
     return (sh - pv) / shift * .0001
 
@@ -568,11 +581,16 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        shifted = list()
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+                shifted.append(d)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d in shifted:
+                d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
@@ -713,27 +731,30 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
-
-    pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            fitting_curve.spread[d] = 0.0
+
+        pp_list = tuple(zip(cashflow_list, present_value))
+        for d in sorted(fitting_curve.spread.domain):
+            # prepare products and prices
+            # todo: better use sensitivity to curve point than maturity
+            filtered_pp_list = list(
+                p for p in pp_list if max(p[0].domain) <= d)
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From bcf281deb2322379a5a114b16a260260ba2d0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 19/53] fix: bucketed delta uses grid of delta curve as default
 and handles unsorted grids

---
 dcf/pricer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index b2e45fa..bbe72eb 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -560,7 +560,10 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     pv = get_present_value(cashflow_list, discount_curve, valuation_date)
     delta_curve = discount_curve if delta_curve is None else delta_curve
-    delta_grid = delta_grid if delta_grid else discount_curve.domain
+    if not delta_grid:
+        delta_grid = getattr(delta_curve, 'domain', discount_curve.domain)
+    grid_order = list(delta_grid)
+    delta_grid = sorted(delta_grid)
 
     if len(delta_grid) == 1:
         grids = (delta_grid,)
@@ -593,7 +596,9 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
                 d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
-    return tuple(buckets)
+    # return buckets in order of the given grid
+    buckets = dict(zip(delta_grid, buckets))
+    return tuple(buckets[d] for d in grid_order)
 
 
 def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
-- 
2.43.0


From fd3497b376f85f69c1c4e62747013402818c7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 20/53] fix: bracketing stops if interval can not be divided
 any further

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index bbe72eb..dd26bb1 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -44,6 +44,9 @@ def _simple_bracketing(func, a, b, precision=1e-13):
     m = a + (b - a) * 0.5
     if abs(b - a) < precision and abs(fb - fa) < precision:
         return a, m, b
+    if m in (a, b):
+        # no float in between left, so precision can not be improved
+        return a, m, b
 
     a, b = (m, b) if f(m) < 0 else (a, m)
     return _simple_bracketing(f, a, b, precision)
-- 
2.43.0


From 30675a05a5fed8e31532b0ab8a504986f0a60ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 21/53] fix: accrued interest of contingent rate cashflows and
 of lists with pay offset

---
 dcf/pricer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index dd26bb1..1403cbb 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -286,11 +286,11 @@ def get_interest_accrued(cashflow_list, valuation_date):
         if valuation_date <= pay_date:
             cf = cashflow_list.payoff(pay_date)
             if isinstance(cf, RateCashFlowPayOff):
-                if cf.start < valuation_date:
-                    remaining = cf.day_count(valuation_date, cf.end)
+                if cf.start < valuation_date <= cf.end:
+                    accrued = cf.day_count(cf.start, valuation_date)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
-                    ac += flow * (1. - remaining / total)
+                    flow = cashflow_list[pay_date]
+                    ac += flow * (accrued / total)
     return ac
 
 
-- 
2.43.0


From 563876c7cffec7604bb6b30676c37f29b064c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 22/53] fix: contingent rate cashflows respect origin of zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From ba874dd866878e7242114f9f42bce6c3d13e47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 23/53] fix: cashflow tables show expected cashflows of legs
 and contingent payoffs

---
 dcf/cashflows/cashflow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..b28537f 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -32,10 +32,11 @@ class CashFlowList(object):
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
                 fwd = getattr(self, 'forward_curve', None)
+                fwd = getattr(self, 'payoff_model', fwd)
                 details = payoff.details(fwd)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
@@ -231,6 +232,11 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = list(leg(_) for leg in self._legs)
+        flows = list(sum(leg[d] for leg in legs) for d in self.domain)
+        return CashFlowList(self.domain, flows, self._origin)
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From cfbba6ab9354860e2e4095efcf2909eab1e189da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 24/53] fix: error message of option strategies with too many
 options

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index b7148cc..2f430b2 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,7 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list) + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From cb12fda41c00faea99358bb89d3610b86b9c573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 25/53] fix: rate cashflow lists without payments

---
 dcf/cashflows/cashflow.py   | 2 +-
 dcf/cashflows/contingent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index b28537f..d6c0691 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -336,7 +336,7 @@ class RateCashFlowList(CashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 2f430b2..ae7f86d 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -252,7 +252,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
             step = payment_date_list[1] - payment_date_list[0]
             start_dates = [payment_date_list[0] - step]
             start_dates.extend(payment_date_list[:-1])
-        elif payment_date_list:
+        else:
             start_dates = payment_date_list
 
         payoff_list = list()
-- 
2.43.0


From 0b16b72b3970aa4036c5e72815289575f980219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 26/53] fix: option models give intrinsic value for expired
 options

---
 dcf/models/optionpricing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..56a89f1 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -253,7 +253,7 @@ class OptionPayOffModel(OptionPricingFormula):
 
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(fwd - strike, 0.0)
         return self._call_price(time, strike, fwd, vol)
 
@@ -269,7 +269,7 @@ class OptionPayOffModel(OptionPricingFormula):
         $$P_K(F(T)) = K - F(T) + C_K(F(T))$$
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(strike - fwd, 0.0)
         call = self._call_price(time, strike, fwd, vol)
         return strike - fwd + call  # put/call parity
@@ -288,7 +288,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0 if fwd < strike else 1.0 * scale  # cadlag
         if not self.bump_greeks:
             delta = self._call_delta(time, strike, fwd, vol)
@@ -334,7 +334,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             gamma = self._call_gamma(date, strike, fwd, vol)
@@ -377,7 +377,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.VEGA_SHIFT
         scale = self.__class__.VEGA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             vega = self._call_vega(time, strike, fwd, vol)
@@ -419,7 +419,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.THETA_SHIFT
         scale = self.__class__.THETA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             theta = self._call_theta(date, strike, fwd, vol)
-- 
2.43.0


From 93929b63a678195a58af271a3e1f0fd5fdceb42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 27/53] fix: option sensitivities use time to expiry and scale
 theta

---
 dcf/models/optionpricing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 56a89f1..1d57bcb 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,12 +422,12 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
         theta -= self._call_price(time, strike, fwd, vol)
-        return theta * scale
+        return theta * scale / shift
 
     def get_put_theta(self, date, strike=None):
         r""" time sensitivity of a put option
-- 
2.43.0


From e2f10313d78e7d0eda7923120b6fab6d08382830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 28/53] fix: log normal option model vega

---
 dcf/models/black76.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 9b9f833..8cb9319 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -68,7 +68,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return forward * sqrt(time) * normal_pdf(d - vol)
+        return forward * sqrt(time) * normal_pdf(d)
 
 
 class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
-- 
2.43.0


From 68b76d57e4a343f25c6cb58cb8f33b277b6975c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 29/53] fix: option pricing formula from function

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 1d57bcb..fa0be9e 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': staticmethod(func)})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From 37267c4aab39bb57868d2d969d0fff7bc441bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 30/53] fix: binary option models price and sensitivities

---
 dcf/models/bachelier.py |  8 ++++----
 dcf/models/black76.py   | 14 +++++++-------
 dcf/models/displaced.py | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index f6b3222..618bc67 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -88,9 +88,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
 
         * call delta: $$\frac{\phi(d)}{\sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
+        * call gamma: $$-d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
 
-        * call vega: $$\sqrt{\tau} \cdot \phi(d)$$
+        * call vega: $$-\frac{d}{\sigma} \cdot \phi(d)$$
 
     """
 
@@ -107,9 +107,9 @@ class BinaryNormalOptionPayOffModel(OptionPayOffModel):
     def _call_gamma(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return d * normal_pdf(d) / (vol * vol * time)
+        return -d * normal_pdf(d) / (vol * vol)
 
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (forward - strike) / vol
-        return sqrt(time) * normal_pdf(d)
+        return -d * normal_pdf(d) / volatility
diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 8cb9319..0988f03 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -89,21 +89,21 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
 
     Then
 
-        * call price: $$\Phi(d)$$
+        * call price: $$\Phi(d-\sigma \cdot \sqrt{\tau})$$
 
         * call delta:
-          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}{\sigma \cdot \sqrt{\tau}}$$
+          $$\frac{\phi(d-\sigma \cdot \sqrt{\tau})}
+          {F \cdot \sigma \cdot \sqrt{\tau}}$$
 
-        * call gamma: $$d \cdot \frac{\phi(d)}{\sigma^2 \cdot \tau}$$
-
-        * call vega: $$(d/\sigma - \sqrt{\tau}) \cdot \phi(d)$$
+        * call vega:
+          $$-\frac{d}{\sigma} \cdot \phi(d-\sigma \cdot \sqrt{\tau})$$
 
     """
 
     def _call_price(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return normal_cdf(d)
+        return normal_cdf(d - vol)
 
     def _call_delta(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
@@ -118,4 +118,4 @@ class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
     def _call_vega(self, time, strike, forward, volatility):
         vol = volatility * sqrt(time)
         d = (log(forward / strike) + (vol ** 2 / 2)) / vol
-        return (d - vol) * normal_pdf(d) / volatility
+        return -d * normal_pdf(d - vol) / volatility
diff --git a/dcf/models/displaced.py b/dcf/models/displaced.py
index 73663fa..21821fd 100644
--- a/dcf/models/displaced.py
+++ b/dcf/models/displaced.py
@@ -113,3 +113,21 @@ class BinaryDisplacedLogNormalOptionPayOffModel(BinaryLogNormalOptionPayOffModel
                                    strike + self.displacement,
                                    forward + self.displacement,
                                    volatility)
+
+    def _call_delta(self, time, strike, forward, volatility):
+        return super()._call_delta(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_gamma(self, time, strike, forward, volatility):
+        return super()._call_gamma(time,
+                                   strike + self.displacement,
+                                   forward + self.displacement,
+                                   volatility)
+
+    def _call_vega(self, time, strike, forward, volatility):
+        return super()._call_vega(time,
+                                  strike + self.displacement,
+                                  forward + self.displacement,
+                                  volatility)
-- 
2.43.0


From 360efe49e0b644c0cd70f4973aba6fbd77c8857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 31/53] fix: binary options pay one or nothing and obey binary
 put-call parity

---
 dcf/models/bachelier.py     |  4 +--
 dcf/models/black76.py       |  4 +--
 dcf/models/intrinsic.py     |  4 +--
 dcf/models/optionpricing.py | 55 +++++++++++++++++++++++++++++++++----
 4 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/dcf/models/bachelier.py b/dcf/models/bachelier.py
index 618bc67..0943418 100644
--- a/dcf/models/bachelier.py
+++ b/dcf/models/bachelier.py
@@ -13,7 +13,7 @@
 from math import sqrt
 
 from .distibutions import normal_pdf, normal_cdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryOptionMixin, OptionPayOffModel
 
 
 class NormalOptionPayOffModel(OptionPayOffModel):
@@ -67,7 +67,7 @@ class NormalOptionPayOffModel(OptionPayOffModel):
         return sqrt(time) * normal_pdf(d)
 
 
-class BinaryNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryNormalOptionPayOffModel(BinaryOptionMixin, OptionPayOffModel):
     r""" Bachelier option pricing formula for binary calls
     (see also |NormalOptionPayOffModel()|)
 
diff --git a/dcf/models/black76.py b/dcf/models/black76.py
index 0988f03..2e883a7 100644
--- a/dcf/models/black76.py
+++ b/dcf/models/black76.py
@@ -13,7 +13,7 @@
 from math import sqrt, log
 
 from .distibutions import normal_cdf, normal_pdf
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryOptionMixin, OptionPayOffModel
 
 
 class LogNormalOptionPayOffModel(OptionPayOffModel):
@@ -71,7 +71,7 @@ class LogNormalOptionPayOffModel(OptionPayOffModel):
         return forward * sqrt(time) * normal_pdf(d)
 
 
-class BinaryLogNormalOptionPayOffModel(OptionPayOffModel):
+class BinaryLogNormalOptionPayOffModel(BinaryOptionMixin, OptionPayOffModel):
     r""" Black 76 option pricing formula for binary calls
     (see also |LogNormalOptionPayOffModel()|)
 
diff --git a/dcf/models/intrinsic.py b/dcf/models/intrinsic.py
index ef6f531..aec1071 100644
--- a/dcf/models/intrinsic.py
+++ b/dcf/models/intrinsic.py
@@ -10,7 +10,7 @@
 # License:  Apache License 2.0 (see LICENSE file)
 
 
-from .optionpricing import OptionPayOffModel
+from .optionpricing import BinaryOptionMixin, OptionPayOffModel
 
 
 class IntrinsicOptionPayOffModel(OptionPayOffModel):
@@ -49,7 +49,7 @@ class IntrinsicOptionPayOffModel(OptionPayOffModel):
         return 0.0
 
 
-class BinaryIntrinsicOptionPayOffModel(OptionPayOffModel):
+class BinaryIntrinsicOptionPayOffModel(BinaryOptionMixin, OptionPayOffModel):
     r""" intrisic option pricing formula for binary call options
     (see also |IntrinsicOptionPayOffModel()|)
 
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index fa0be9e..6c9f28a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -244,6 +244,14 @@ class OptionPayOffModel(OptionPricingFormula):
         details['model-id'] = id(self)
         return details
 
+    def _call_intrinsic(self, strike, forward):
+        # call payoff at expiry
+        return max(forward - strike, 0.0)
+
+    def _put_call_parity(self, strike, forward, call):
+        # put value derived from call value
+        return strike - forward + call
+
     def get_call_value(self, date, strike=None):
         r""" value of a call option
 
@@ -254,7 +262,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
         if not vol or time <= 0:
-            return max(fwd - strike, 0.0)
+            return self._call_intrinsic(strike, fwd)
         return self._call_price(time, strike, fwd, vol)
 
     def get_put_value(self, date, strike=None):
@@ -270,9 +278,10 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
         if not vol or time <= 0:
-            return max(strike - fwd, 0.0)
-        call = self._call_price(time, strike, fwd, vol)
-        return strike - fwd + call  # put/call parity
+            call = self._call_intrinsic(strike, fwd)
+        else:
+            call = self._call_price(time, strike, fwd, vol)
+        return self._put_call_parity(strike, fwd, call)
 
     def get_call_delta(self, date, strike=None):
         r""" delta sensitivity of a call option
@@ -443,7 +452,40 @@ class OptionPayOffModel(OptionPricingFormula):
         return self.get_call_theta(date, strike)
 
 
-class BinaryOptionPayOffModel(OptionPayOffModel):
+class BinaryOptionMixin(object):
+    r""" payoff and put-call parity of binary options
+
+    A binary call pays $1$ if $F > K$ else $0$ and a binary put vice versa.
+    Hence, prices and sensitivities of puts are derived by
+    $$P_K(F(T)) = 1 - C_K(F(T)).$$
+    """
+
+    def _call_intrinsic(self, strike, forward):
+        return 0.0 if forward <= strike else 1.0
+
+    def _put_call_parity(self, strike, forward, call):
+        return 1.0 - call
+
+    def get_call_delta(self, date, strike=None):
+        time, strike, fwd, vol = self._tsfv(date, strike)
+        if not vol or time <= 0:
+            return 0.0
+        return super().get_call_delta(date, strike)
+
+    def get_put_delta(self, date, strike=None):
+        return -self.get_call_delta(date, strike)
+
+    def get_put_gamma(self, date, strike=None):
+        return -self.get_call_gamma(date, strike)
+
+    def get_put_vega(self, date, strike=None):
+        return -self.get_call_vega(date, strike)
+
+    def get_put_theta(self, date, strike=None):
+        return -self.get_call_theta(date, strike)
+
+
+class BinaryOptionPayOffModel(BinaryOptionMixin, OptionPayOffModel):
     STRIKE_SHIFT = 0.0001
     """finite difference to calculate binary option payoff as a call spread"""
 
@@ -476,6 +518,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             valuation_date = valuation_date or pricing_formula.valuation_date
             forward_curve = forward_curve or pricing_formula.forward_curve
@@ -486,7 +529,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift or self.__class__.STRIKE_SHIFT
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From 8b6a720ba386564f96ed4f6edc645e6a48140345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 32/53] fix: annuity plan with rate of zero

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..fa778fa 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -65,6 +65,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
     q = 1. + fixed_rate
+    if q == 1.:
+        return amortize(num, amount)
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
 
-- 
2.43.0


From d623077f8f6a11cee469893d01dbc521e968a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 33/53] fix: payment dates of products with float or plain
 dates

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..2766949 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,12 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From 36ddfb451c12a6445933117e7198e1c6494ac5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 34/53] fix: products resolve day count conventions given by
 name

---
 dcf/cashflows/products.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 2766949..781a789 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -49,6 +49,15 @@ def _interest_payment_dates(
         return payment_date_list
 
 
+def _day_count(day_count, start_date):
+    # day count convention given by name
+    if not isinstance(day_count, str):
+        return day_count
+    if bd and isinstance(start_date, bd.BusinessDate):
+        return lambda start, end: start.get_day_count(end, day_count)
+    return None
+
+
 def bond(start_date=TODAY,
          end_date=TODAY + MATURITY,
          period=BOND_TENOR,
@@ -115,7 +124,7 @@ def bond(start_date=TODAY,
         amount_list=interest_notional_amount_list,
         fixed_rate=fixed_rate,
         forward_curve=forward_curve,
-        day_count=day_count,
+        day_count=_day_count(day_count, start_date),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
@@ -182,7 +191,7 @@ def interest_rate_swap(start_date=TODAY,
         amount_list=[-notional_amount] * len(pay_leg_payment_date_list),
         fixed_rate=fixed_rate,
         forward_curve=forward_curve,
-        day_count=day_count,
+        day_count=_day_count(day_count, start_date),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
@@ -196,7 +205,7 @@ def interest_rate_swap(start_date=TODAY,
         amount_list=[notional_amount] * len(rec_leg_payment_date_list),
         fixed_rate=rec_leg_fixed_rate,
         forward_curve=rec_leg_forward_curve,
-        day_count=rec_leg_day_count,
+        day_count=_day_count(rec_leg_day_count, start_date),
         origin=start_date,
         fixing_offset=fixing_offset,
         pay_offset=pay_offset
-- 
2.43.0


From aa15de323cfadc43934d008dcb0426b0f54ac0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 35/53] fix: discount factors do not depend on identity of date
 objects

---
 dcf/curves/creditcurve.py       | 2 +-
 dcf/curves/interestratecurve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 875e3d7..4ba5d52 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -175,7 +175,7 @@ class SurvivalProbabilityCurve(ProbabilityCurve):
         return curve.get_survival_prob(curve.origin, x)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index f1ae1a3..372c59d 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -309,7 +309,7 @@ class DiscountFactorCurve(InterestRateCurve):
                                                   forward_tenor)
 
     def _get_compounding_factor(self, start, stop):
-        if start is self.origin:
+        if start == self.origin:
             return self(stop)
         return self(stop) / self(start)
 
-- 
2.43.0


From 14badc1c00ad26f52f4fe3790bd29af66b51905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 36/53] fix: integral of a curve takes spread into account

---
 dcf/curves/curve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 690cad0..5a1c5e3 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -794,6 +794,14 @@ class RateCurve(DateCurve):
         new._forward_tenor = self._forward_tenor
         return new
 
+    def integrate(self, start, stop):
+        result = super().integrate(start, stop)
+        if hasattr(self._spread, 'integrate'):
+            result += self._spread.integrate(start, stop)
+        return result
+
+    integrate.__doc__ = DateCurve.integrate.__doc__
+
     def _get_compounding_factor(self, start, stop):
         # aka discount factor
         if start == stop:
-- 
2.43.0


From fec96cbcfef9eff6d95aa0d7a5eff20b740bdc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 37/53] fix: rating classes of very small values are not mixed
 up

---
 dcf/ratingclass.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dcf/ratingclass.py b/dcf/ratingclass.py
index 50db309..0503e23 100644
--- a/dcf/ratingclass.py
+++ b/dcf/ratingclass.py
@@ -30,6 +30,11 @@ SHORT_MASTER_SCALE = ('A',
                       'D')
 
 
+def _round(value):
+    # round to significant digits (small values differ by digits, too)
+    return float('%.9e' % value)
+
+
 class RatingClass(object):
     SLOPPY = False
 
@@ -113,8 +118,7 @@ class RatingClass(object):
         if self.masterscale:
             # check for base class item
             for k in self.masterscale:
-                if round(float(self), 7) == round(float(self.masterscale[k]),
-                                                  7):
+                if _round(self) == _round(self.masterscale[k]):
                     return k
             # build linear combination of base classes
             pairs = list(zip(list(self.masterscale.keys()), list(self)))
@@ -128,8 +132,8 @@ class RatingClass(object):
 
     def __iter__(self):
         if self._masterscale:
-            value = round(float(self), 7)
-            value_list = [round(x, 7) for x in list(self.masterscale.values())]
+            value = _round(self)
+            value_list = [_round(x) for x in list(self.masterscale.values())]
 
             if not min(value_list) <= value <= max(value_list):
                 msg = 'masterscale does not embrace %.7f' % float(
-- 
2.43.0


From a45f862bca0d38c2d4539891f73200c5af2761a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 38/53] fix: arithmetic evaluates the second curve with its own
 interpolation

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 5a1c5e3..c5246a0 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -358,7 +358,7 @@ class Curve(object):
             x_list = self.domain
         # y_list = self(self.domain)
         # return self.__class__(x_list, y_list, self.interpolation)
-        return self.__class__(x_list, self)
+        return self.__class__(x_list, self, self._interpolation)
 
 
 class DateCurve(Curve):
-- 
2.43.0


From 702f4e0d327d3b5a28b57934daf915084fa57563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 39/53] fix: arithmetic of curves with a single date

---
 dcf/curves/curve.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index c5246a0..41c1d80 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -298,20 +298,24 @@ class Curve(object):
             return tuple(self(xx) for xx in x)
         return self._func(x)
 
+    def _new(self, x_list, y_list):
+        # curve of same kind but different data
+        return self.__class__(x_list, y_list, self._interpolation)
+
     def __add__(self, other):
         x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) + other(x) for x in x_list]
-        return self.__class__(x_list, y_list, self._interpolation)
+        return self._new(x_list, y_list)
 
     def __sub__(self, other):
         x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) - other(x) for x in x_list]
-        return self.__class__(x_list, y_list, self._interpolation)
+        return self._new(x_list, y_list)
 
     def __mul__(self, other):
         x_list = sorted(set(list(self.domain) + list(other.domain)))
         y_list = [self(x) * other(x) for x in x_list]
-        return self.__class__(x_list, y_list, self._interpolation)
+        return self._new(x_list, y_list)
 
     def __truediv__(self, other):
         return self.__div__(other)
@@ -322,7 +326,7 @@ class Curve(object):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
         y_list = [self(x) / other(x) for x in x_list]
-        return self.__class__(x_list, y_list, self._interpolation)
+        return self._new(x_list, y_list)
 
     def __str__(self):
         inner = tuple()
@@ -473,29 +477,25 @@ class DateCurve(Curve):
             return self.fixings[x]
         return super(DateCurve, self).__call__(self.day_count(x))
 
+    def _new(self, x_list, y_list):
+        return self.__class__(x_list, y_list, self._interpolation,
+                              self.origin, self._day_count)
+
     def __add__(self, other):
-        new = super(DateCurve, self).__add__(
+        return super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        return self.__class__(new.domain, new(new.domain), self._interpolation,
-                              self.origin, self._day_count)
 
     def __sub__(self, other):
-        new = super(DateCurve, self).__sub__(
+        return super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        return self.__class__(new.domain, new(new.domain), self._interpolation,
-                              self.origin, self._day_count)
 
     def __mul__(self, other):
-        new = super(DateCurve, self).__mul__(
+        return super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        return self.__class__(new.domain, new(new.domain), self._interpolation,
-                              self.origin, self._day_count)
 
     def __div__(self, other):
-        new = super(DateCurve, self).__div__(
+        return super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        return self.__class__(new.domain, new(new.domain), self._interpolation,
-                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 7ffccbb14b51043c06b08a651eaa63afb9016bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 40/53] fix: option models and contingent rate cashflows with
 zero or without forward

---
 dcf/cashflows/payoffs.py    | 4 +++-
 dcf/models/optionpricing.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..e3bd4ec 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -390,7 +390,9 @@ class ContingentRateCashFlowPayOff(RateCashFlowPayOff):
         details = super().details(forward_curve)
         floorlet = caplet = 0.0
         if isinstance(model, OptionPayOffModel):
-            fixing_date = details['fixing date']
+            fixing_date = self.start
+            if self.fixing_offset:
+                fixing_date -= self.fixing_offset
             yf = details['year fraction']
             amount = details['notional']
             cf = details['cashflow']
diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 6c9f28a..74d942d 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -166,7 +166,7 @@ class OptionPayOffModel(OptionPricingFormula):
     def _tsfv(self, date, strike=None):
         details = self.details(date, strike)
         keys = 'time to expiry', 'strike', 'forward', 'volatility'
-        return tuple(details.get(k, None) for k in keys)
+        return tuple(details.get(k, 0.0) for k in keys)
         # fwd = 0.0
         # if self.forward_curve:
         #     if hasattr(self.forward_curve, 'get_forward_price'):
-- 
2.43.0


From 84dbc7bd8737eeb7276e62569acf535db42b8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 41/53] fix: binary option model takes given valuation date,
 forward and volatility of zero

---
 dcf/models/optionpricing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 74d942d..fbd2c1a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -520,11 +520,14 @@ class BinaryOptionPayOffModel(BinaryOptionMixin, OptionPayOffModel):
         self._inner = pricing_formula
         self._strike_shift = strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
-            day_count = day_count or pricing_formula.day_count
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
+            if day_count is None:
+                day_count = pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
 
-- 
2.43.0


From 1cc54d84290babb6d858b74cbf8e64c7855a14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 42/53] fix: fixed cashflow list from other list takes given
 origin of zero

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index d6c0691..6f3ac0b 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -269,7 +269,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From 5166d03469bced81a77e5e7df3db6f97f4a6c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 43/53] fix: products with business dates accept target as
 holidays

---
 dcf/cashflows/products.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 781a789..43cabe3 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -31,6 +31,10 @@ def _interest_payment_dates(
             end_date = start_date + bd.BusinessPeriod(end_date)
         end_date = bd.BusinessDate(end_date)
 
+        if holidays == 'target':
+            # default holidays of businessdate are target holidays
+            holidays = bd.BusinessDate.DEFAULT_HOLIDAYS
+
         payment_date_list = bd.BusinessSchedule(
             start_date, end_date, period, end_date)
         payment_date_list.adjust(convention, holidays)
-- 
2.43.0


From 99f60954a60c5da1c5e0e1a79415f790474feaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 44/53] fix: redemption date of bonds with end date given as
 period

---
 dcf/cashflows/products.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 43cabe3..88031bb 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -23,13 +23,20 @@ BOND_TENOR = 1
 SWAP_TENOR = 3 / 12
 
 
-def _interest_payment_dates(
-        start_date, end_date, period, convention, holidays):
+def _end_date(start_date, end_date):
+    # end date may be given as period from start date
     if bd and isinstance(start_date, bd.BusinessDate):
-        start_date = bd.BusinessDate(start_date)
         if bd.BusinessPeriod.is_businessperiod(end_date):
             end_date = start_date + bd.BusinessPeriod(end_date)
         end_date = bd.BusinessDate(end_date)
+    return end_date
+
+
+def _interest_payment_dates(
+        start_date, end_date, period, convention, holidays):
+    if bd and isinstance(start_date, bd.BusinessDate):
+        start_date = bd.BusinessDate(start_date)
+        end_date = _end_date(start_date, end_date)
 
         if holidays == 'target':
             # default holidays of businessdate are target holidays
@@ -98,7 +105,8 @@ def bond(start_date=TODAY,
 
     if isinstance(notional_amount, (int, float)):
         # case bullet loan
-        notional_payment_date_list = start_date, end_date
+        notional_payment_date_list = \
+            start_date, _end_date(start_date, end_date)
         notional_amount_list = -notional_amount, notional_amount
         interest_notional_amount_list = \
             [notional_amount] * len(interest_payment_date_list)
-- 
2.43.0


From a14958910c3fd28538c59898e00e485476704a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 45/53] fix: integral of a curve respects jumps and kinks at
 points of its domain

---
 dcf/curves/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 41c1d80..b6c446d 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -546,7 +546,10 @@ class DateCurve(Curve):
             s = self.day_count(start)
             e = self.day_count(stop)
             f = super(DateCurve, self).__call__
-            value, *_ = quad(f, s, e)
+            # curve may have kinks or jumps at points of domain
+            points = [self.day_count(d) for d in self.domain]
+            points = [p for p in points if min(s, e) < p < max(s, e)]
+            value, *_ = quad(f, s, e, points=points, limit=50 + len(points))
         except ImportError:
             value = 0.0
             step = self._TIME_SHIFT
-- 
2.43.0


From 9e8b50e0739d9c54b973fdb9fd75244606dd830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 46/53] fix: cashflow lists refuse more amounts than payment
 dates

---
 dcf/cashflows/cashflow.py   |  6 ++++++
 dcf/cashflows/contingent.py | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 6f3ac0b..d5f11ad 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -340,6 +340,12 @@ class RateCashFlowList(CashFlowList):
         else:
             start_dates = payment_date_list
 
+        if not len(amount_list) == len(payment_date_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list` and `amount_list` " \
+                  f"must have same length."
+            raise ValueError(msg)
+
         payoff_list = list()
         for s, e, a in zip(start_dates, payment_date_list, amount_list):
             if pay_offset:
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index ae7f86d..94832c1 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -114,6 +114,13 @@ class OptionCashflowList(ContingentCashFlowList):
         if isinstance(is_put_list, (bool, int, float)):
             is_put_list = [is_put_list] * len(payment_date_list)
 
+        num = len(payment_date_list)
+        if not num == len(amount_list) == len(strike_list) == len(is_put_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list`, `amount_list`, `strike_list` " \
+                  f"and `is_put_list` must have same length."
+            raise ValueError(msg)
+
         payoff_list = list()
         for expiry, amount, strike, is_put in \
                 zip(payment_date_list, amount_list, strike_list, is_put_list):
@@ -255,6 +262,12 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         else:
             start_dates = payment_date_list
 
+        if not len(amount_list) == len(payment_date_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list` and `amount_list` " \
+                  f"must have same length."
+            raise ValueError(msg)
+
         payoff_list = list()
         for s, e, a in zip(start_dates, payment_date_list, amount_list):
             if pay_offset:
-- 
2.43.0


From 6dee9f5cc4c70cbeaa67e14f2242092388a0681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 47/53] fix: option strategies refuse unequal numbers of
 amounts and strikes

---
 dcf/cashflows/payoffs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index e3bd4ec..58c353d 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -284,6 +284,11 @@ class OptionStrategyCashFlowPayOff(CashFlowPayOff):
         if isinstance(call_amount_list, (int, float)):
             call_amount_list = [call_amount_list] * len(call_strike_list)
 
+        if not (len(put_amount_list) == len(put_strike_list)
+                and len(call_amount_list) == len(call_strike_list)):
+            raise ValueError(f"{self.__class__.__name__} arguments for amounts "
+                             f"and strikes must have same length.")
+
         self._options = list()
         cls = OptionCashFlowPayOff
         for amount, strike in zip(put_amount_list, put_strike_list):
-- 
2.43.0


From 8674b28eb0d654326d6c4851dec8f46412bcc58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 48/53] fix: representation of option strategy payoffs does not
 recurse endlessly

---
 dcf/cashflows/payoffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 58c353d..7226634 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -22,7 +22,7 @@ class CashFlowPayOff(object):
         return self.details(_).get('cashflow', 0.0)
 
     def __repr__(self):
-        return str(getattr(self, 'amount', self))
+        return str(getattr(self, 'amount', super().__repr__()))
 
     def details(self, _=None):
         return {'cashflow': 0.0}
-- 
2.43.0


From 4898b58d1940d788db98e8db7297bd06f4749f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 49/53] fix: curve fit refuses unequal numbers of cashflow
 lists and present values

---
 dcf/pricer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 1403cbb..b800334 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -732,6 +732,9 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
     """  # noqa 501
     if isinstance(present_value, (int, float)):
         present_value = [present_value] * len(cashflow_list)
+    if not len(present_value) == len(cashflow_list):
+        raise ValueError("get_curve_fit arguments `cashflow_list` and "
+                         "`present_value` must have same length.")
 
     fitting_curve = discount_curve if fitting_curve is None else fitting_curve
     fitting_grid = \
-- 
2.43.0


From 093aa13fb02686d4825bbfc9dc2cc914b99aa1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:56 +0000
Subject: [PATCH 50/53] fix: tables of contingent rate cashflow lists show the
 valuation date

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 94832c1..bad9b0c 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -214,7 +214,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         'fixed rate', 'forward rate', 'fixing date', 'tenor', \
         'floorlet', 'floorlet strike', 'floorlet volatility', \
         'caplet', 'caplet strike', 'caplet volatility', \
-        'time to expiry', 'model valuation date'
+        'time to expiry', 'valuation date'
 
     def __init__(self, payment_date_list, amount_list=DEFAULT_AMOUNT,
                  origin=None, day_count=None,
-- 
2.43.0


From 43177257531f67d127f75f02ec05ca2d696122a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 51/53] fix: list of cashflow legs owns its list of legs

---
 dcf/cashflows/cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index d5f11ad..9004dec 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -217,7 +217,7 @@ class CashFlowLegList(CashFlowList):
                 cls = self.__class__.__name__, leg.__class__.__name__
                 raise ValueError("Legs %s of can be either `CashFlowList` "
                                  "or `RateCashFlowList` but not %s." % cls)
-        self._legs = legs
+        self._legs = list(legs)
         domains = tuple(tuple(leg.domain) for leg in self._legs)
         domain = list(sorted(set().union(*domains)))
         origin = min(leg.origin for leg in self._legs)
-- 
2.43.0


From c9e8dd847f2a2b5a02894771b236a93032467125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 52/53] fix: dates of curves are taken and given as copies

---
 dcf/curves/curve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b6c446d..655690b 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -158,6 +158,7 @@ class Curve(object):
         for name in signature(self.__class__).parameters:
             attr = self(self.domain) if name == 'data' else None
             attr = getattr(self, '_' + name, attr)
+            attr = self.domain if name == 'domain' else attr
             # give function name only if it can be looked up by its name
             attr_name = getattr(attr, '__name__', None)
             if attr_name and vars(_interpolations).get(attr_name) is attr:
@@ -170,7 +171,7 @@ class Curve(object):
     @property
     def domain(self):
         """coordinates and date of given (not interpolated) x-values"""
-        return self._domain
+        return self._domain[:]
 
     @property
     def table(self):
@@ -265,6 +266,8 @@ class Curve(object):
             func = vars(_interpolations).get(interpolation, interpolation)
         if domain:
             domain, data = map(list, zip(*sorted(zip(*(domain, data)))))
+        else:
+            domain = tuple(domain)
         self._func = func(domain, data)
         self._domain = domain
 
@@ -451,7 +454,7 @@ class DateCurve(Curve):
     def domain(self):
         r""" domain of curve $t_1 \dots t_n$ as list of dates
         where curve values are given explicit """
-        return self._domain
+        return self._domain[:]
 
     @property
     def origin(self):
@@ -464,7 +467,7 @@ class DateCurve(Curve):
     def _update(self, domain, data):
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
-        self._domain = domain
+        self._domain = domain if isinstance(domain, tuple) else list(domain)
 
     def _get_data(self):
         # given values at domain points (without fixings and spreads)
-- 
2.43.0


From b5049e4cc44e2e72c853c636b8801eb66ffdb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 53/53] fix: cash rates refuse contradicting periods for zero
 dates, too

---
 dcf/curves/interestratecurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 372c59d..c28896b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -240,7 +240,7 @@ class InterestRateCurve(RateCurve):
         return self._get_cash_rate(start, stop, step)
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
@@ -430,7 +430,7 @@ class CashRateCurve(InterestRateCurve):
         return continuous_rate(df, self.day_count(start, stop))
 
     def _get_cash_rate(self, start, stop=None, step=None):
-        if stop and step:
+        if stop is not None and step is not None:
             if not start + step == stop:
                 raise AssertionError(
                     "if stop and step given, start+step must meet stop.")
-- 
2.43.0

