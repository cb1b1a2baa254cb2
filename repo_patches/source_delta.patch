From faeb25a2585e43f322e6b9056fcccbf3f58ad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 01/31] fix: order Adams-Bashforth coefficients as the history
 (oldest first)

The history buffer keeps the oldest derivative first, B was written newest first.
---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
-- 
2.43.0


From d0f96bd557a2fafbc6608959ad10a59ebba83bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 02/31] fix: order AdamsMoulton4 and 5 coefficients as the
 history (oldest first)

---
 nbkode/multistep/adams_moulton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From d3774218cde76e39daef593138f966e2422208df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 03/31] fix: Multistep.IMPLICIT was inverted

---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From fb87084adc42ffadfd1c615a0af1425fd37323e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 04/31] fix: start-up of multistep solvers with a variable step
 solver ignored t0

---
 nbkode/multistep/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..8c06e3a 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -58,9 +58,9 @@ class Multistep(Solver, abstract=True):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
-            # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
+            # For variable step solver we run until t0 + h, t0 + 2h, .. t0 + (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 4bf4267750f6946c21a7ac46205ac5acbcc0ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 05/31] fix: start-up of multistep solvers could go beyond
 t_bound

---
 nbkode/multistep/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 8c06e3a..d4385b2 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -46,6 +46,9 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
+        # The start-up must not go beyond t_bound either.
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if isinstance(first_stepper_cls, str):
             import nbkode
 
-- 
2.43.0


From ffcda44e938dfd6da4217b3348954b4613d78256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 06/31] fix: start-up of multistep solvers with another
 multistep solver skipped its history

---
 nbkode/multistep/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index d4385b2..596b484 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -57,7 +57,14 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
-            for _ in range(self.ORDER - 1):
+            steps = self.ORDER - 1
+            if isinstance(solver, Multistep):
+                # The start-up of the first stepper already made some of them.
+                hist = solver.cache
+                for ndx in range(1, solver.ORDER)[:steps]:
+                    self.cache.push(hist.ts[ndx], hist.ys[ndx], hist.fs[ndx])
+                    steps -= 1
+            for _ in range(steps):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
-- 
2.43.0


From 0b37d32e5f04ee897bb27f4ae607ebe04c05a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 07/31] fix: run_events raised AttributeError when times in the
 past were requested

---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..494c315 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -438,7 +438,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 81ae5e0cba3967a387308c82947ed041b2f35a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 08/31] fix: step() and skip() were not equivalent to n=1

At t_bound step() returned None and skip() did nothing instead of raising RuntimeError,
and step() returned a view of the solver's buffer.
---
 nbkode/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 494c315..76bbf67 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -245,8 +245,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+            if not self._step(self.t_bound, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
+            return np.atleast_1d(self.t), self.y.copy()
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,8 +297,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
-        elif upto_t is None:
+            n = 1
+
+        if upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
                 raise RuntimeError("Integrator reached t_bound.")
-- 
2.43.0


From 33efa51bf6c9f556e7439723dacf5aa2673bf3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 09/31] fix: interpolate within the step that contains the
 requested time

For multistep solvers the interpolant was built from the first and last point of the
whole history: it missed the steps in between and was inaccurate (also in the search
of events, where bisect could fail).
---
 nbkode/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 76bbf67..a4c0769 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -583,12 +583,20 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Look for the step containing t_eval, starting from the last one.
+        ndx = cache.ts.size - 2
+        while ndx > 0 and t_eval < cache.ts[ndx]:
+            ndx -= 1
+
+        t0, y0, f0 = cache.ts[ndx], cache.ys[ndx], cache.fs[ndx]
         if t_eval == t0:
             return y0
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        t1, y1, f1 = cache.ts[ndx + 1], cache.ys[ndx + 1], cache.fs[ndx + 1]
+        if t_eval == t1:
+            return y1
+
+        dt, dy = t1 - t0, y1 - y0
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From 243b4aaae73ac66103551cd95aec49315bd527f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 10/31] fix: interpolated states at recorded times were views
 of the solver's buffer

They changed when the solver was advanced. This includes y_events.
---
 nbkode/core.py                 | 4 ++--
 nbkode/runge_kutta/explicit.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index a4c0769..19935b8 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -590,11 +590,11 @@ class Solver(ABC, metaclass=MetaSolver):
 
         t0, y0, f0 = cache.ts[ndx], cache.ys[ndx], cache.fs[ndx]
         if t_eval == t0:
-            return y0
+            return y0.copy()
 
         t1, y1, f1 = cache.ts[ndx + 1], cache.ys[ndx + 1], cache.fs[ndx + 1]
         if t_eval == t1:
-            return y1
+            return y1.copy()
 
         dt, dy = t1 - t0, y1 - y0
 
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..ae62fb2 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -370,9 +370,9 @@ class RkInterpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
@@ -450,9 +450,9 @@ class DOP853Interpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return self.cache.ys[-1].copy()
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return self.cache.ys[-2].copy()
         if not self.is_before(t_eval):
             self.update()
 
-- 
2.43.0


From a365a94dc96f80961eb749d9a081ef6459747c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 11/31] fix: with several terminal events in a step, stop at
 the earliest one

---
 nbkode/event_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..7990beb 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -221,12 +221,13 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
         return terminate
-- 
2.43.0


From d8f335c2587b66013a7a158220344da9925d3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 12/31] fix: do not report events that come after the terminal
 event

---
 nbkode/event_handler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 7990beb..548fe8a 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -165,6 +165,12 @@ class Event:
 
         return trigger and self.is_terminal
 
+    def discard_after(self, t):
+        """Remove events that would happen after t."""
+        while self.t and self.t[-1] > t:
+            self.t.pop()
+            self.y.pop()
+
     @property
     def last_event(self):
         if self.t:
@@ -230,6 +236,10 @@ class EventHandler:
                     min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            for event in self.events:
+                event.discard_after(min_t)
+
         return terminate
 
 
-- 
2.43.0


From 2095ab2ebbf638f7a160b4e99037260a2a24e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 13/31] fix: run_events dropped the requested times before a
 terminal event

Those between the start of the last step and the event were missing in the output.
---
 nbkode/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 19935b8..be35842 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -649,9 +649,17 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
+                    t_last, y_last = event_handler.last_event
+                    n_out = ndx
+                    # Output requested times before the termination.
+                    while n_out < t_eval.size and t_eval[n_out] < t_last:
+                        y_out[n_out] = interpolate(t_eval[n_out], rhs, cache, *args)
+                        n_out += 1
                     # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    if n_out < t_eval.size:
+                        t_eval[n_out], y_out[n_out] = t_last, y_last
+                        n_out += 1
+                    return t_eval[:n_out], y_out[:n_out], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From 48c727589c6dd31d06600cea74e429b2b71e3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 14/31] fix: run with unsorted times raised IndexError when
 stopped early

---
 nbkode/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index be35842..2854fe4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -445,7 +445,8 @@ class Solver(ABC, metaclass=MetaSolver):
         if is_t_sorted:
             return ts, ys, t_events, y_events
 
-        ondx = np.argsort(ndx)
+        # There might be less output than requested times.
+        ondx = np.argsort(ndx[: ts.size])
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From 8ac0fb01c32ca718b366a91dba6aec149ece998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 15/31] fix: DOP853 failed when the error estimate is zero

ZeroDivisionError when compiled, endless loop in pure Python.
---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index ae62fb2..c090571 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From ab2965bdb654856ccebbbfaef3157002c89f4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 16/31] fix: adaptive solvers increased the step size right
 after a rejected attempt

SciPy's (and the original codes) do not, the steps were different from theirs.
---
 nbkode/runge_kutta/core.py     | 15 +++++++++++----
 nbkode/runge_kutta/explicit.py |  8 ++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..6adb3cd 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -84,18 +84,23 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
 
     @staticmethod
     @numba.njit(inline="always")
-    def _step_update(error_norm, h, options, error_exponent) -> bool:
+    def _step_update(error_norm, h, options, error_exponent, rejected) -> bool:
         """Checks if step is accepted and updates step size h.
 
         Updates h in place, so it must be an scalar numpy array.
+        After a rejected attempt (rejected is True), the step size is not increased.
         Returns True if step is accepted.
         """
         if error_norm == 0:
-            h *= options.max_factor
+            if not rejected:
+                h *= options.max_factor
             return True  # step accepted
 
         factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
+        factor = min(options.max_factor, max(options.min_factor, factor))
+        if rejected and error_norm < 1:
+            factor = min(1.0, factor)
+        h *= factor
         return error_norm < 1
 
     @classmethod
@@ -111,13 +116,15 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
             if cache.t + h > t_bound:
                 return False
 
+            rejected = False
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
-                if step_update(error_norm, h, options, error_exponent):
+                if step_update(error_norm, h, options, error_exponent, rejected):
                     cache.push(t, y, rhs(t, y))
                     break
+                rejected = True
 
             return True
 
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index c090571..572a0f1 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -88,13 +88,15 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            rejected = False
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 error = step_error(h, K, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
-                if step_update(error_norm, h, options, error_exponent):
+                if step_update(error_norm, h, options, error_exponent, rejected):
                     cache.push(t, y, K[-1])
                     break
+                rejected = True
 
         return _step
 
@@ -327,6 +329,7 @@ class DOP853(FSAL):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            rejected = False
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 err5 = step_error(h, K, E5)
@@ -337,9 +340,10 @@ class DOP853(FSAL):
                     error_norm = 0.0
                 else:
                     error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
-                if step_update(error_norm, h, options, error_exponent):
+                if step_update(error_norm, h, options, error_exponent, rejected):
                     cache.push(t, y, K[-1])
                     break
+                rejected = True
 
         return _step
 
-- 
2.43.0


From 325aedd2d896a259c1ea05cdc3985092716ab48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 17/31] fix: adaptive methods that are not FSAL could not step

The step builder still took t_bound, which is checked in Solver.
---
 nbkode/runge_kutta/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 6adb3cd..c014d15 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -112,10 +112,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         step_update = cls._step_update
 
         @numba.njit
-        def _step(t_bound, rhs, cache, h, K, options):
-            if cache.t + h > t_bound:
-                return False
-
+        def _step(rhs, cache, h, K, options, *args):
             rejected = False
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
@@ -126,8 +123,6 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     break
                 rejected = True
 
-            return True
-
         return _step
 
     @property
-- 
2.43.0


From 4b2069ece8f0962241979198b16b994dba595d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 18/31] fix: adaptive solvers ignored max_step

---
 nbkode/core.py             | 2 +-
 nbkode/runge_kutta/core.py | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 2854fe4..6b7a380 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -722,7 +722,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
-        self.h = np.array(h, dtype=float)
+        self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
 def check(solver, implicit=None, fixed_step=None, runge_kutta=None, multistep=None):
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index c014d15..d7a3bb6 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -94,6 +94,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         if error_norm == 0:
             if not rejected:
                 h *= options.max_factor
+            if h > options.max_step:
+                h[()] = options.max_step
             return True  # step accepted
 
         factor = options.safety_factor / error_norm**error_exponent
@@ -101,6 +103,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         if rejected and error_norm < 1:
             factor = min(1.0, factor)
         h *= factor
+        if h > options.max_step:
+            h[()] = options.max_step
         return error_norm < 1
 
     @classmethod
-- 
2.43.0


From 33c8e117439dc5b13154180da5ea333675d1a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 19/31] fix: solvers looped for ever when the step size became
 too small to advance time

For example when the solution blows up or the right hand side returns NaN.
---
 nbkode/core.py                 | 4 ++++
 nbkode/runge_kutta/core.py     | 2 ++
 nbkode/runge_kutta/explicit.py | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6b7a380..26ab74c 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -177,6 +177,8 @@ class Solver(ABC, metaclass=MetaSolver):
             def _step(t_bound, rhs, cache, h, *args):
                 if cache.t + h > t_bound:
                     return False
+                elif not cache.t + h > cache.t:
+                    raise RuntimeError("The step size is too small to advance time.")
                 else:
                     step(rhs, cache, h, *args)
                     return True
@@ -722,6 +724,8 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
+        # The first attempt has to advance time (same minimum step as SciPy).
+        h = max(h, 10 * np.spacing(np.abs(self.t)))
         self.h = np.array(min(h, self.options.max_step), dtype=float)
 
 
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index d7a3bb6..90b2773 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -126,6 +126,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     cache.push(t, y, rhs(t, y))
                     break
                 rejected = True
+                if not cache.t + h > cache.t:
+                    raise RuntimeError("The step size is too small to advance time.")
 
         return _step
 
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 572a0f1..b004151 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -97,6 +97,8 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
                     cache.push(t, y, K[-1])
                     break
                 rejected = True
+                if not cache.t + h > cache.t:
+                    raise RuntimeError("The step size is too small to advance time.")
 
         return _step
 
@@ -344,6 +346,8 @@ class DOP853(FSAL):
                     cache.push(t, y, K[-1])
                     break
                 rejected = True
+                if not cache.t + h > cache.t:
+                    raise RuntimeError("The step size is too small to advance time.")
 
         return _step
 
-- 
2.43.0


From e81e5cef66632a710915635716b7a37ef07e64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 20/31] fix: jacobian was singular or wrong for large values

---
 nbkode/nbcompat/zeros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..217a42b 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -439,10 +439,11 @@ def j_newton(
 
 @numba.njit()
 def jacobian(func, x, args=()):
-    eps = 1e-10
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
+        # A fixed increment would vanish when added to large values.
+        eps = 1e-10 * max(1.0, np.abs(x[i]))
         x1 = x.copy()
         x2 = x.copy()
 
-- 
2.43.0


From 6f589e17690142713b732f7700e3d98ce1dbc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 21/31] fix: a solver rejected for its alias stayed registered
 under its name

---
 nbkode/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index 26ab74c..4ccbc8a 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -164,6 +164,7 @@ class Solver(ABC, metaclass=MetaSolver):
                         f"Duplicate name/alias {cls.__name__} in {cls} "
                         f"collides with {cls.SOLVERS[name_or_alias]}"
                     )
+            for name_or_alias in (cls.__name__,) + cls.ALIASES:
                 cls.SOLVERS[name_or_alias] = cls
             if cls.GROUP not in cls.SOLVERS_BY_GROUP:
                 cls.SOLVERS_BY_GROUP[cls.GROUP] = []
-- 
2.43.0


From 5b59f27c2470a9c49b86827a0ec4f290c7b857f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 22/31] fix: implicit steps of scalar problems could silently
 return a wrong state

The scalar root finder stops when the change is small, which for strongly nonlinear
problems does not imply that the implicit equation is satisfied. Check it and, when it
is not, use the other root finder, which either satisfies it or raises.
---
 nbkode/multistep/core.py | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 596b484..2cab777 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -122,6 +122,19 @@ class ExplicitMultistep(Multistep, abstract=True):
         return _fixed_step
 
 
+@numba.njit
+def _solve(func, y, args):
+    """Solve the implicit equation func(y, *args) = 0 starting at y."""
+    if y.size == 1:
+        y_new = j_newton(func, y, args=args)
+        # j_newton stops when y changes little: it might not be at a root.
+        residual = np.abs(func(y_new, *args))[0]
+        if residual <= 1.48e-8 * max(1.0, np.abs(y_new)[0]):
+            return y_new
+
+    return newton_hd(func, y, args=args)
+
+
 class ImplicitMultistep(Multistep, abstract=True):
     @classmethod
     def _fixed_step_builder(cls):
@@ -140,18 +153,7 @@ class ImplicitMultistep(Multistep, abstract=True):
                 t_new = cache.t + h
                 K = h * B @ cache.fs[deltaB:] - A @ cache.ys[deltaA:]
 
-                if cache.y.size == 1:
-                    y_new = j_newton(
-                        implicit_root,
-                        cache.y,
-                        args=(rhs, t_new, h * Bn, K),
-                    )
-                else:
-                    y_new = newton_hd(
-                        implicit_root,
-                        cache.y,
-                        args=(rhs, t_new, h * Bn, K),
-                    )
+                y_new = _solve(implicit_root, cache.y, (rhs, t_new, h * Bn, K))
 
                 return t_new, y_new
 
@@ -162,18 +164,7 @@ class ImplicitMultistep(Multistep, abstract=True):
                 t_new = cache.t + h
                 K = h * B @ cache.fs - A @ cache.ys
 
-                if cache.y.size == 1:
-                    y_new = j_newton(
-                        implicit_root,
-                        cache.y,
-                        args=(rhs, t_new, h * Bn, K),
-                    )
-                else:
-                    y_new = newton_hd(
-                        implicit_root,
-                        cache.y,
-                        args=(rhs, t_new, h * Bn, K),
-                    )
+                y_new = _solve(implicit_root, cache.y, (rhs, t_new, h * Bn, K))
 
                 return t_new, y_new
 
-- 
2.43.0


From b5cc0d29f57a227c7a19ccba6931d309ae2946dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 23/31] fix: bisect refused brackets where the product of the
 values underflows

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 217a42b..f155dfb 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -516,7 +516,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From eaaca73bbef530d98e21c0143db4240f9f775e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 24/31] fix: newton gave an empty warning when it did not
 converge

---
 nbkode/nbcompat/zeros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index f155dfb..ae02263 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -258,7 +258,8 @@ def newton(
                 )
             raise RuntimeError(msg)
 
-        warnings.warn(msg, RuntimeWarning)
+        if my_flag is not NewtonEnum.NOT_CONVERGED:
+            warnings.warn(msg, RuntimeWarning)
 
     return zeros._results_select(full_output, r)
 
-- 
2.43.0


From ff6893bec5977c68100b1fe5dd0313114cb10ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 25/31] fix: newton reported a secant with equal function
 values as converged

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index ae02263..45352d6 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -367,7 +367,7 @@ def _newton(
                     # warnings.warn(msg, RuntimeWarning)
                 p = (p1 + p0) / 2.0
                 return (
-                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERGED)),
+                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERR)),
                     my_flag,
                 )
             else:
-- 
2.43.0


From 0c044eb18f5245ace1a0f565cf27dcdfdbec2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 26/31] fix: newton failed for complex numbers without
 derivative

---
 nbkode/nbcompat/zeros.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 45352d6..d54c34f 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -226,6 +226,9 @@ def newton(
             func, x0, fprime, args, tol, maxiter, fprime2, full_output
         )
 
+    # Use a numpy object: a Python complex cannot be compared.
+    x0 = np.asarray(x0)[()] * 1.0
+
     (full_output, r), my_flag = _newton(
         func,
         x0,
-- 
2.43.0


From 7d220937017c835bfde06501bc7176db66fa7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 27/31] fix: isclose took finite values as close to infinite
 ones

---
 nbkode/nbcompat/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/common.py b/nbkode/nbcompat/common.py
index d81e2bd..175e393 100644
--- a/nbkode/nbcompat/common.py
+++ b/nbkode/nbcompat/common.py
@@ -15,7 +15,9 @@ from .nb_to_import import numba
 
 @numba.njit()
 def isclose(a, b, atol, rtol):
-    return np.abs(a - b) <= (atol + rtol * np.abs(b))
+    # As in NumPy, infinite values are only close to themselves.
+    near = np.abs(a - b) <= (atol + rtol * np.abs(b))
+    return (a == b) | (near & np.isfinite(b))
 
 
 @numba.njit
-- 
2.43.0


From 71364d04c3c7ad89cf91f9f1c71e04e2542a125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:42 +0000
Subject: [PATCH 28/31] fix: adaptive solvers looped for ever when the step
 size became infinite

---
 nbkode/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 4ccbc8a..cde546d 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -178,8 +178,10 @@ class Solver(ABC, metaclass=MetaSolver):
             def _step(t_bound, rhs, cache, h, *args):
                 if cache.t + h > t_bound:
                     return False
-                elif not cache.t + h > cache.t:
-                    raise RuntimeError("The step size is too small to advance time.")
+                elif not cache.t < cache.t + h < np.inf:
+                    raise RuntimeError(
+                        "The step size is too small or too large to advance time."
+                    )
                 else:
                     step(rhs, cache, h, *args)
                     return True
-- 
2.43.0


From 3fa3169640e25b6c7114133609aefafa7d149ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 29/31] fix: jacobian was singular or inaccurate for large
 function values

---
 nbkode/nbcompat/zeros.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index d54c34f..67a8a4b 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -446,8 +446,9 @@ def jacobian(func, x, args=()):
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
-        # A fixed increment would vanish when added to large values.
-        eps = 1e-10 * max(1.0, np.abs(x[i]))
+        # Cube root of the machine epsilon, best for central differences. The
+        # increment grows with x, as otherwise it would vanish when added to it.
+        eps = 6e-6 * max(1.0, np.abs(x[i]))
         x1 = x.copy()
         x2 = x.copy()
 
-- 
2.43.0


From a28dac3a826b126e52b2b23d89e3c3565d615d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 30/31] fix: isclose took an infinite value as close to a
 finite one when the tolerance overflows

---
 nbkode/nbcompat/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/common.py b/nbkode/nbcompat/common.py
index 175e393..77a4b99 100644
--- a/nbkode/nbcompat/common.py
+++ b/nbkode/nbcompat/common.py
@@ -17,7 +17,7 @@ from .nb_to_import import numba
 def isclose(a, b, atol, rtol):
     # As in NumPy, infinite values are only close to themselves.
     near = np.abs(a - b) <= (atol + rtol * np.abs(b))
-    return (a == b) | (near & np.isfinite(b))
+    return (a == b) | (near & np.isfinite(a) & np.isfinite(b))
 
 
 @numba.njit
-- 
2.43.0


From b423db0e4bbf241e476a7346648d2827cfe59719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 31/31] fix: multistep methods with more B than A coefficients
 had the wrong order

---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 2cab777..fa8c401 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -24,7 +24,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def ORDER(cls):
-        return cls.A.size
+        return max(cls.A.size, cls.B.size)
 
     @classproperty
     def IMPLICIT(cls):
-- 
2.43.0

