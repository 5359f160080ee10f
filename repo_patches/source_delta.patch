From b48197c49ef463a9bac68f2d7f0488b61ee2f8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 01/24] fix: user termination events no longer leak into later
 solves

---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..830bebd 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -555,8 +555,8 @@ class IBLMethod(ABC):
         else:
             atol = atol_set
 
-        # setup the ODE solver
-        kill_events = self._kill_events
+        # setup the ODE solver (user events only apply to this solution)
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From 75a740b4cca6c1da9824444c3dad93fe8af57f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 02/24] fix: solve no longer hangs when it cannot start from
 the given state

---
 ibl/ibl_method.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 830bebd..0eed315 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -541,7 +541,13 @@ class IBLMethod(ABC):
         ------
         TypeError
             When solution parameters have not been set.
+        ValueError
+            When integration range or the state at its start is not usable.
         """
+        # the integrator never finishes if it is given NaN values to start
+        if np.isnan(x0) or np.isnan(x_end):
+            raise ValueError(f"Invalid integration range: [{x0}, {x_end}]")
+
         # setup the initial conditions
         self._ic.nu = self._nu
         self._ic.du_e = float(self.du_e(x0))
@@ -563,7 +569,15 @@ class IBLMethod(ABC):
         elif term_event is not None:
             kill_events.append(term_event)
 
-        rtn = solve_ivp(fun=self._ode_impl, t_span=[x0, x_end], y0=y0,
+        def ode_fun(x: float, f: npt.NDArray) -> npt.NDArray:
+            """Evaluate the ODE, but do not start from an invalid state."""
+            f_p = self._ode_impl(x, f)  # type: ignore [arg-type]
+            if x == x0 and not np.all(np.isfinite(f_p)):
+                raise ValueError("Invalid rate of change at start of "
+                                 + f"integration: {f_p}")
+            return f_p
+
+        rtn = solve_ivp(fun=ode_fun, t_span=[x0, x_end], y0=y0,
                         method="RK45", dense_output=True, events=kill_events,
                         rtol=rtol, atol=atol)
 
-- 
2.43.0


From 062cda0639e6d6cf87d7568c6a76f27e3bfdc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 03/24] fix: only report terminal events as the reason solve
 terminated

---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 0eed315..0120b0a 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -599,7 +599,7 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
-                    if xe.shape[0] > 0:
+                    if kill_events[i].terminal and xe.shape[0] > 0:
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
                         status, message = kill_events[i].event_info()
-- 
2.43.0


From 2d1163e1c8bccb67dd177886c024caaad878937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 04/24] fix: HeadMethod no longer changes arrays owned by the
 velocity functions

Wall shear stress can also be queried at a single location.
---
 ibl/head_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..23d68c9 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,7 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
+        u_e = np.array(self.u_e(x), dtype=float)  # do not change caller data
         u_e[np.abs(u_e) < 0.001] = 0.001
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
@@ -286,6 +286,7 @@ class HeadMethod(IBLMethod):
         if isinstance(u_e, float):
             u_e = max(u_e, 0.001)
         else:
+            u_e = np.array(u_e, dtype=float)  # do not change caller data
             u_e[np.abs(u_e) < 0.001] = 0.001
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
-- 
2.43.0


From f9f13f688137eb3be87502047ced6ef95939423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 05/24] fix: rejected velocity leaves the previous velocity in
 place

---
 ibl/ibl_method.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 0120b0a..d992617 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -416,8 +416,6 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
-            self._u_e = u_e
-
             # if dU_edx not provided then use finite differences
             if du_e is None:
                 if d2u_e is not None:
@@ -427,59 +425,65 @@ class IBLMethod(ABC):
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
-                    self._du_e = u_e.derivative()
-                    self._d2u_e = u_e.derivative(2)
+                    du_e_new = u_e.derivative()
+                    d2u_e_new = u_e.derivative(2)
                 else:
                     # FIX: This is depricated in scipy
                     def du_e_fun(x:InputParam) -> InputParam:
                         # pylint: disable-next=line-too-long
-                        return fd_1f(self._u_e, xo=x, dx=1e-4)  #pyright: ignore[reportArgumentType]
+                        return fd_1f(u_e, xo=x, dx=1e-4)  #pyright: ignore[reportArgumentType]
 
 
                     def d2u_e_fun(x:InputParam) -> InputParam:
                         # pylint: disable-next=line-too-long
-                        return fd_2f(self._u_e, xo=x, dx=1e-4)  #pyright: ignore[reportArgumentType]
+                        return fd_2f(u_e, xo=x, dx=1e-4)  #pyright: ignore[reportArgumentType]
 
 
-                    self._du_e = du_e_fun
-                    self._d2u_e = d2u_e_fun
+                    du_e_new = du_e_fun
+                    d2u_e_new = d2u_e_fun
             else:
                 if not callable(du_e):
                     raise ValueError("Must pass in callable object for first "
                                      "derivative if callable u_e given")
-                self._du_e = du_e
+                du_e_new = du_e
 
                 # if d2U_edx2 not provied then use finite difference
                 if d2u_e is None:
                     # if dU_edx has derivative method then use it
                     if (hasattr(du_e, "derivative")
                             and callable(getattr(du_e, "derivative"))):
-                        self._d2u_e = du_e.derivative()
+                        d2u_e_new = du_e.derivative()
                     else:
                         def d2u_e_fun(x: InputParam) -> InputParam:
                             # pylint: disable-next=line-too-long
-                            return fd_1f(self._du_e, xo=x, dx=1e-5)  #pyright: ignore[reportArgumentType]
+                            return fd_1f(du_e, xo=x, dx=1e-5)  #pyright: ignore[reportArgumentType]
 
 
-                        self._d2u_e = d2u_e_fun
+                        d2u_e_new = d2u_e_fun
                 else:
-                    if not callable(du_e):
+                    if not callable(d2u_e):
                         raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
+                                         "second derivative if callable u_e "
                                          "given")
 
-                    self._d2u_e = d2u_e
+                    d2u_e_new = d2u_e
+
+            # only change the velocity once everything is known to be valid
+            self._u_e = u_e
+            self._du_e = du_e_new
+            self._d2u_e = d2u_e_new
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
                 pchip = PchipInterpolator(x_pts, du_e_pts)
-                self._du_e = pchip
                 pchipa = pchip.antiderivative()
                 pchipa.c[-1, :] = pchipa.c[-1, :] + u_e
+                pchipp = pchip.derivative()
                 self._u_e = pchipa
-                self._d2u_e = pchip.derivative()
+                self._du_e = pchip
+                self._d2u_e = pchipp
             else:
                 # otherwise unknown velocity input
                 raise ValueError(f"Don't know how to use {du_e} to "
-- 
2.43.0


From 2721e13338979dbab0f22ce75ba42b0ee9df200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 06/24] fix: changing viscosity, velocity or data fit discards
 the old solution

Otherwise properties were calculated from a mix of the old solution and the
new settings.
---
 ibl/ibl_method.py      | 3 +++
 ibl/thwaites_method.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index d992617..4e2570a 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -367,6 +367,7 @@ class IBLMethod(ABC):
     def nu(self, nu: float) -> None:
         if nu <= 0:
             raise ValueError(f"Invalid kinematic viscosity: {nu}")
+        self._solution = None  # existing solution is for another viscosity
         self._nu = nu
 
     def set_initial_condition(self, ic: InitialCondition) -> None:
@@ -469,6 +470,7 @@ class IBLMethod(ABC):
                     d2u_e_new = d2u_e
 
             # only change the velocity once everything is known to be valid
+            self._solution = None  # existing solution is for another velocity
             self._u_e = u_e
             self._du_e = du_e_new
             self._d2u_e = d2u_e_new
@@ -481,6 +483,7 @@ class IBLMethod(ABC):
                 pchipa = pchip.antiderivative()
                 pchipa.c[-1, :] = pchipa.c[-1, :] + u_e
                 pchipp = pchip.derivative()
+                self._solution = None
                 self._u_e = pchipa
                 self._du_e = pchip
                 self._d2u_e = pchipp
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..8daacfe 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -158,6 +158,7 @@ class ThwaitesMethod(IBLMethod):
             else:
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
+        self._solution = None  # existing solution is for another data fit
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
                                                       self._model.shear))
 
-- 
2.43.0


From c8b690592ad48a67e29204137b97dab27c5e8c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 07/24] fix: limit Thwaites data fit values at both ends of
 range

---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 8daacfe..b8ce867 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -545,7 +545,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From 7b3502174e5765fc03ce74d5eaaaa75e6c313523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 08/24] fix: failed similarity solution leaves the previous
 solution in place

---
 ibl/analytic/_analytic_2d_base.py | 27 +++++++++++++++++++++++++++
 ibl/analytic/_falkner_skan.py     | 11 ++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..6687598 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,6 +462,33 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
+        # keep existing solution in case new one cannot be found
+        existing = (self._f, self._eta_inf, self._eta_d, self._eta_m,
+                    self._eta_k, self._eta_s)
+        try:
+            self._find_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+        except BaseException:
+            (self._f, self._eta_inf, self._eta_d, self._eta_m,
+             self._eta_k, self._eta_s) = existing
+            raise
+
+    def _find_solution(self, fw_pp: Optional[float],
+                       eta_inf: Optional[float]) -> None:
+        """
+        Find the solution and the invariant thicknesses that go with it.
+
+        Parameters
+        ----------
+        fw_pp : float | None
+            Second derivative condition for the ODE.
+        eta_inf : float | None
+            Maximum similarity coordinate.
+
+        Raises
+        ------
+        ValueError
+            If solution or shear thickness could not be found.
+        """
         self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
 
         # calculate the invariant thickness now that have solution
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..7b8834a 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
-        self._beta = beta
-
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        existing_beta = self._beta
+        try:
+            self._beta = beta
+
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except BaseException:
+            self._beta = existing_beta
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From 81855ca41f66640506f1b0cf64ef017116c49931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 09/24] fix: similarity solver no longer reports the mirrored
 or an unconverged result

---
 ibl/analytic/_analytic_2d_base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 6687598..f822325 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -626,6 +626,7 @@ class Analytic2dSimilarityIncompressible(ABC):
                 eta_inf_curr = 1.01*eta_inf_prev
 
             fw_pp_curr = 0.0
+            f1_curr, f2_curr = f1_prev, f2_prev
             while not eta_inf_converged and (j < j_max):
                 # find fw_pp for this eta_inf
                 i=0
@@ -654,6 +655,19 @@ class Analytic2dSimilarityIncompressible(ABC):
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
                 j = j + 1
+
+            # the ODE has a mirrored solution with both terms negative
+            if eta_inf_curr < 0 and fw_pp_curr < 0:
+                eta_inf_curr = -eta_inf_curr
+                fw_pp_curr = -fw_pp_curr
+
+            # do not report something that is not close to being a solution
+            if (not eta_inf_curr > 0
+                    or (fw_pp is None and not np.abs(1.0 - f1_curr) < 1e-5)
+                    or (eta_inf is None and not np.abs(f2_curr) < 1e-5)):
+                raise ValueError("Could not find converged solution, last "
+                                 + f"f\'\'(0)={fw_pp_curr:.6f} and "
+                                 + f"eta_inf={eta_inf_curr:.6f}.")
         else:
             eta_inf_curr = eta_inf
             fw_pp_curr = fw_pp
-- 
2.43.0


From 0715c24173cedb05f149d843e312563b74bcbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 10/24] fix: do not silently ignore initial values the initial
 condition cannot hold

---
 ibl/head_method.py     | 6 ++++++
 ibl/thwaites_method.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 23d68c9..1684777 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -48,6 +48,9 @@ class HeadMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
+        if not hasattr(self._ic, "del_m"):
+            raise ValueError("Initial condition does not allow the momentum "
+                             + "thickness to be set")
         cast(ManualCondition, self._ic).del_m = delta_m0
 
     @property
@@ -62,6 +65,9 @@ class HeadMethod(IBLMethod):
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
+        if not hasattr(self._ic, "del_d"):
+            raise ValueError("Initial condition does not allow the "
+                             + "displacement shape factor to be set")
         cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index b8ce867..da6e095 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -76,6 +76,9 @@ class ThwaitesMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
+        if not hasattr(self._ic, "del_m"):
+            raise ValueError("Initial condition does not allow the momentum "
+                             + "thickness to be set")
         cast(ManualCondition, self._ic).del_m = delta_m0
 
     def set_data_fits(self, data_fits: _DataFits) -> None:
-- 
2.43.0


From d37ea194227c24cb1f147df4f36d2ea863a11112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 11/24] fix: initial shape factor of HeadMethod no longer
 depends on order it is set

---
 ibl/head_method.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 1684777..cd9f75c 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -15,6 +15,7 @@ from ibl.ibl_method import IBLMethod
 from ibl.ibl_method import TermReason
 from ibl.ibl_method import TermEvent
 from ibl.skin_friction import ludwieg_tillman as c_f_fun
+from ibl.initial_condition import InitialCondition
 from ibl.initial_condition import ManualCondition
 from ibl.typing import InputParam
 
@@ -36,6 +37,19 @@ class HeadMethod(IBLMethod):
 
         self.set_shape_d_critical(shape_d_crit)
 
+    @override
+    def set_initial_condition(self, ic: InitialCondition) -> None:
+        """
+        Set the initial conditions for solver.
+
+        Parameters
+        ----------
+        ic : InitialCondition
+            Desired initial condition.
+        """
+        super().set_initial_condition(ic)
+        self._initial_shape_d: Optional[float] = None
+
     @property
     def initial_delta_m(self) -> float:
         """
@@ -51,7 +65,10 @@ class HeadMethod(IBLMethod):
         if not hasattr(self._ic, "del_m"):
             raise ValueError("Initial condition does not allow the momentum "
                              + "thickness to be set")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        ic = cast(ManualCondition, self._ic)
+        ic.del_m = delta_m0
+        if self._initial_shape_d is not None:
+            ic.del_d = self._initial_shape_d*delta_m0
 
     @property
     def initial_shape_d(self) -> float:
@@ -59,6 +76,8 @@ class HeadMethod(IBLMethod):
         Dispacement thickness at start of integration.
         Must be greater than zero
         """
+        if self._initial_shape_d is not None:
+            return self._initial_shape_d
         return self._ic.shape_d()
 
     @initial_shape_d.setter
@@ -69,6 +88,7 @@ class HeadMethod(IBLMethod):
             raise ValueError("Initial condition does not allow the "
                              + "displacement shape factor to be set")
         cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
+        self._initial_shape_d = shape_d
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
         """
-- 
2.43.0


From 461a11136c1479c077961009c354e8a26b03a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 12/24] fix: read dump files with a station exactly at the
 stagnation point

---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..bc75fc8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 5bb61733313c437bd30f2b72856930853af4a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 13/24] fix: failed dump file load does not leave partial data
 in reader

The filename is now also recorded once the file has been loaded, and a file
without a lower surface is reported as invalid.
---
 ibl/reference/_xfoil_reader.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index bc75fc8..4e66ae3 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -178,6 +178,30 @@ class XFoilReader:
         if filename == "":
             return
 
+        try:
+            self._load_dump(filename)
+        except BaseException:
+            # do not leave partial results if loading failed
+            self._upper = []
+            self._lower = []
+            self._wake = []
+            raise
+        self._filename = filename
+
+    def _load_dump(self, filename: str) -> None:
+        """
+        Load the data from the dump file.
+
+        Parameters
+        ----------
+        filename : str
+            Name of file containing data.
+
+        Raises
+        ------
+        ValueError
+            If dump file contains invalid data.
+        """
         # get rows from file
         airfoil_data, wake_data = self._get_dump_data(filename)
 
@@ -189,6 +213,8 @@ class XFoilReader:
                 idx_lower = idx
                 break
             self._upper.insert(0, new_pt)
+        if idx_lower < 0:
+            raise ValueError(f"No lower surface data in dump file: {filename}")
 
         # extract the lower aifoil data
         self._lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
-- 
2.43.0


From 672c60dbbae2a75533059a5133ce38a536fc52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 14/24] fix: report case files that do not have data for all of
 their stations

---
 ibl/reference/_stanford_1968.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..1004d92 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -143,6 +143,13 @@ class StanfordOlympics1968:
         self._smooth_vel = StanfordOlympics1968SmoothVel(si_unit=si_unit,
                                                          data=case_data[2])
 
+        # every station needs to be in each of the station blocks
+        n_station = len(case_data[1])
+        if ((len(case_data) > 3 and len(case_data[3]) != n_station)
+                or (len(case_data) > 4 and len(case_data) != n_station + 4)):
+            raise ValueError(f"Case {case} does not have data for all "
+                             + f"{n_station} stations")
+
         # extract station data
         if len(case_data) < 4:
             for sum_d in case_data[1]:
-- 
2.43.0


From 536fea5c7d191adb2335e90e56a48507e1e59e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 15/24] fix: failed case load does not leave partial data in
 reader

---
 ibl/reference/_stanford_1968.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 1004d92..b4aa83d 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -113,10 +113,34 @@ class StanfordOlympics1968:
         self._smooth_vel = None
         self._station = []
 
+        self._case = ""
         if case == "":
-            self._case = ""
             return
 
+        try:
+            self._load_case(case)
+        except BaseException:
+            # do not leave partial results if loading failed
+            self._nu_ref = np.inf
+            self._smooth_vel = None
+            self._station = []
+            raise
+        self._case = case
+
+    def _load_case(self, case: str) -> None:
+        """
+        Load the specified case from the collection of case files.
+
+        Parameters
+        ----------
+        case : str
+            String representation of four digit case number
+
+        Raises
+        ------
+        ValueError
+            When case file to be read contains invalid data.
+        """
         case_data = self._get_case_data(case_id=case)
 
         # extract case info
@@ -128,7 +152,6 @@ class StanfordOlympics1968:
         if case_parts[1] != case:
             raise ValueError(f"Case {case} does not match data file case "
                              + f"{case_parts[1]}")
-        self._case = case
         si_unit = case[0] == "1"
 
         nu_parts = [x.rstrip().lstrip() for x in case_data[0][1].split("=")]
-- 
2.43.0


From 980d2dc3432dd353bdc018987d02b717deeedd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 16/24] fix: user events can be used with Thwaites methods

---
 ibl/ibl_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4e2570a..afcb666 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -194,7 +194,8 @@ class TermEvent(ABC):
         float
             Value that is zero when the solver should stop.
         """
-        return self._call_impl(x, np.asarray(f))
+        # integrator needs same type of value from all events
+        return np.asarray(self._call_impl(x, np.asarray(f))).item()
 
     @abstractmethod
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From fe54a7fbccf7059cc79bf3f4d5567f8704aa2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 17/24] fix: separation is found at its location instead of end
 of step past it

---
 ibl/thwaites_method.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index da6e095..f534477 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -163,7 +163,7 @@ class ThwaitesMethod(IBLMethod):
 
         self._solution = None  # existing solution is for another data fit
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.separation))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -532,6 +532,17 @@ class _ThwaitesFunctions:
         """Return the shear term."""
         return self._shear_fun(self._check_range(lam))
 
+    def separation(self, lam: InputParam) -> npt.NDArray:
+        """
+        Return the shear term extended to always change sign at separation.
+
+        The shear term is constant below its range, so when it is zero there
+        it never changes sign and where it became zero cannot be found.
+        """
+        shear = self.shear(lam)
+        lam_min, _ = self.range()
+        return np.where(shear <= 0, shear + np.minimum(lam-lam_min, 0), shear)
+
     def f(self, lam: InputParam) -> npt.NDArray:
         """Return the F term."""
         return 2*(self.shear(lam) - lam*(self.shape(lam)+2))
-- 
2.43.0


From 8ba799d3d88b2138c11a7f75cfe0ce1c39125ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 18/24] fix: solve that fails when reporting its event keeps
 the old solution

---
 ibl/ibl_method.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index afcb666..7416031 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -590,13 +590,13 @@ class IBLMethod(ABC):
                         rtol=rtol, atol=atol)
 
         # if completed gather info
-        self._solution = None
+        solution = None
         x_end = x0
         f_end = y0
         status = TermReason.UNKNOWN
         message = rtn.message
         if rtn.success:
-            self._solution = rtn.sol
+            solution = rtn.sol
 
             # if terminated on time or early figure out why
             if rtn.status == 0:
@@ -617,8 +617,12 @@ class IBLMethod(ABC):
             message = f"{str(status)}: {message}"
         else:
             message = str(status)
-        return IntegrationResult(x_end=x_end, f_end=f_end, status=status,
-                                 message=message, success=rtn.success)
+        result = IntegrationResult(x_end=x_end, f_end=f_end, status=status,
+                                   message=message, success=rtn.success)
+
+        # only change the solution once nothing from this solve can fail
+        self._solution = solution
+        return result
 
     def u_e(self, x: InputParam) -> npt.NDArray:
         """
-- 
2.43.0


From 0fd86410c808976297b5bc679275c8947118c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 19/24] fix: rows of a case file that contain '# ' are not
 silently dropped

Any line with '# ' anywhere in it was taken for a heading, and the line after
a single heading line was dropped, so a damaged row (or the one after it) was
lost without notice.
---
 ibl/reference/_stanford_1968.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index b4aa83d..90ba0b2 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -623,19 +623,18 @@ class StanfordOlympics1968:
             with filename.open("r", encoding="utf8") as f:
                 buff = f.readlines()
 
-            # split into chunks for different sections
-            # buff = "".join(buff)
-            chunk_idx = [idx for idx, s in enumerate(buff) if "# " in s]
-            chunk_idx.append(len(buff))
-            idx_prev = chunk_idx[0]
-            for cidx in chunk_idx[1:]:
-                if cidx > idx_prev:
-                    block = buff[idx_prev+1:cidx]  # extract lines
-                    block = "".join(block).split("\n")  # split into rows
-                    block = list(filter(None, block))  # remove empty rows
-                    contents.append(block)
-                    idx_prev = cidx + 1
-                else:
-                    idx_prev = cidx
+            # split into blocks, each starts with its heading lines
+            in_heading = False
+            for line in buff:
+                if line.startswith("#"):
+                    if not in_heading:
+                        contents.append([])
+                    in_heading = True
+                elif line.rstrip("\n"):
+                    if not contents:
+                        raise ValueError("Case file does not start with "
+                                         f"heading: {filename}")
+                    contents[-1].append(line.rstrip("\n"))
+                    in_heading = False
 
         return contents
-- 
2.43.0


From 18b7310da38411083b42710cf503b8b3f816470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:55 +0000
Subject: [PATCH 20/24] fix: similarity solutions refuse NaN parameters instead
 of never returning

---
 ibl/analytic/_analytic_2d_base.py | 4 ++--
 ibl/analytic/_falkner_skan.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index f822325..db9040a 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -455,10 +455,10 @@ class Analytic2dSimilarityIncompressible(ABC):
             If invalid value is passed in.
         """
         # Error checking
-        if (eta_inf is not None) and (eta_inf <= 0):
+        if (eta_inf is not None) and not eta_inf > 0:
             raise ValueError("Invalid maximum similarity parameter: "
                              + f"{eta_inf}")
-        if (fw_pp is not None) and (fw_pp <= 0):
+        if (fw_pp is not None) and not fw_pp > 0:
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 7b8834a..b194d2d 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -39,7 +39,7 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
                  fw_pp: Optional[float] = None,
                  eta_inf: Optional[float] = None) -> None:
         # need to get the class in default state
-        if (beta < -0.19884) or (beta > 2):
+        if not -0.19884 <= beta <= 2:
             raise ValueError(f"Invalid inviscid wedge angle parameter: {beta}")
 
         # initialize base class
@@ -88,7 +88,7 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
             If invalid value is passed in.
         """
         # Error checking
-        if (beta < -0.19884) or (beta > 2):
+        if not -0.19884 <= beta <= 2:
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
         existing_beta = self._beta
-- 
2.43.0


From d9cb39ef407d4db2b463a04dbf6a3d1ea34bad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 21/24] fix: similarity solution is refused when its kinetic
 energy thickness cannot be found

---
 ibl/analytic/_analytic_2d_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index db9040a..144ad0a 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -487,7 +487,7 @@ class Analytic2dSimilarityIncompressible(ABC):
         Raises
         ------
         ValueError
-            If solution or shear thickness could not be found.
+            If solution or one of the thicknesses could not be found.
         """
         self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
 
@@ -499,7 +499,11 @@ class Analytic2dSimilarityIncompressible(ABC):
         def k_fun(eta: float) -> float:
             return float(2*self.f(eta)*self.f_p(eta)*self.f_pp(eta))
 
-        self._eta_k = quad(k_fun, 0, self.eta_inf)[0]
+        quad_rtn = quad(k_fun, 0, self.eta_inf, full_output=1)
+        if len(quad_rtn) > 3:  # there is a message only when it failed
+            raise ValueError("Could not find kinetic energy thickness with "
+                             + f"error: {quad_rtn[3]}")
+        self._eta_k = quad_rtn[0]
 
         def s_fun(eta: float) -> float:
             return float(0.99-self.f_p(eta))
-- 
2.43.0


From 4f402c06a90d87b1af08b77109bd26b8f345c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 22/24] fix: interrupted case or dump file selection does not
 leave a mix of two

---
 ibl/reference/_stanford_1968.py | 26 ++++++++++++--------------
 ibl/reference/_xfoil_reader.py  | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 90ba0b2..9ed3448 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -108,24 +108,22 @@ class StanfordOlympics1968:
         ValueError
             When case file to be read contains invalid data.
         """
-        # reset everything
-        self._nu_ref = np.inf
-        self._smooth_vel = None
-        self._station = []
-
-        self._case = ""
-        if case == "":
-            return
-
         try:
-            self._load_case(case)
+            self._reset()
+            if case != "":
+                self._load_case(case)
+                self._case = case
         except BaseException:
             # do not leave partial results if loading failed
-            self._nu_ref = np.inf
-            self._smooth_vel = None
-            self._station = []
+            self._reset()
             raise
-        self._case = case
+
+    def _reset(self) -> None:
+        """Reset everything to no case being loaded."""
+        self._case = ""
+        self._nu_ref = np.inf
+        self._smooth_vel = None
+        self._station = []
 
     def _load_case(self, case: str) -> None:
         """
diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 4e66ae3..d8ff515 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -163,7 +163,18 @@ class XFoilReader:
 
     @filename.setter
     def filename(self, filename: str) -> None:
-        # reset everything
+        try:
+            self._reset()
+            if filename != "":
+                self._load_dump(filename)
+                self._filename = filename
+        except BaseException:
+            # do not leave partial results if loading failed
+            self._reset()
+            raise
+
+    def _reset(self) -> None:
+        """Reset everything to no file being loaded."""
         self._filename = ""
         self._name = ""
         self._alpha = np.inf
@@ -175,18 +186,6 @@ class XFoilReader:
         self._upper = []
         self._lower = []
         self._wake = []
-        if filename == "":
-            return
-
-        try:
-            self._load_dump(filename)
-        except BaseException:
-            # do not leave partial results if loading failed
-            self._upper = []
-            self._lower = []
-            self._wake = []
-            raise
-        self._filename = filename
 
     def _load_dump(self, filename: str) -> None:
         """
-- 
2.43.0


From 8addfc29ba45de6d926b087ceddb0316b6c6220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 23/24] fix: interrupted change of wedge parameter restores all
 of the old solution

---
 ibl/analytic/_falkner_skan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index b194d2d..03c9134 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,13 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if not -0.19884 <= beta <= 2:
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
-        existing_beta = self._beta
+        # keep everything about existing case in case new one cannot be found
+        existing = dict(self.__dict__)
         try:
             self._beta = beta
 
             self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
         except BaseException:
-            self._beta = existing_beta
+            self.__dict__.update(existing)
             raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
-- 
2.43.0


From c7db814a39a0fc54e3ff224985b68c227134ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:50 +0000
Subject: [PATCH 24/24] fix: interrupted change of data fit does not mix old
 solution with new fit

---
 ibl/thwaites_method.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index f534477..3df73ca 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -114,15 +114,16 @@ class ThwaitesMethod(IBLMethod):
             When an invalid fit name or unusable 2-tuple or 3-tuple provided
         """
         # data_fits can either be string or 2-tuple of callables
+        model: _ThwaitesFunctions
         if isinstance(data_fits, str):
             if data_fits == "Spline":
-                self._model = _ThwaitesFunctionsSpline()
+                model = _ThwaitesFunctionsSpline()
             elif data_fits == "White":
-                self._model = _ThwaitesFunctionsWhite()
+                model = _ThwaitesFunctionsWhite()
             elif data_fits == "Cebeci-Bradshaw":
-                self._model = _ThwaitesFunctionsCebeciBradshaw()
+                model = _ThwaitesFunctionsCebeciBradshaw()
             elif data_fits == "Drela":
-                self._model = _ThwaitesFunctionsDrela()
+                model = _ThwaitesFunctionsDrela()
             else:
                 raise ValueError("Unknown fitting function name: ", data_fits)
         else:
@@ -131,7 +132,7 @@ class ThwaitesMethod(IBLMethod):
                 if len(data_fits) == 3:
                     if callable(data_fits[0]) and callable(data_fits[1]) \
                             and callable(data_fits[2]):  # type: ignore [misc]
-                        self._model = _ThwaitesFunctions(
+                        model = _ThwaitesFunctions(
                             "Custom", data_fits[0],
                             data_fits[1], data_fits[2],  # type: ignore [misc]
                             -np.inf, np.inf)
@@ -142,16 +143,16 @@ class ThwaitesMethod(IBLMethod):
                     if callable(data_fits[0]) and callable(data_fits[1]):
                         # create finite difference approximation to derivative
                         def shape_p_fun(lam: InputParam) -> npt.NDArray:
-                            fun = self._model.shape
+                            fun = model.shape
                             xo = lam
                             dx = 1e-5
                             return ((fun(xo-2*dx) - fun(xo+2*dx))/12
                                     - 2*(fun(xo-dx) - fun(xo+dx))/3)/dx
-                        self._model = _ThwaitesFunctions("Custom",
-                                                         data_fits[0],
-                                                         data_fits[1],
-                                                         shape_p_fun,
-                                                         -np.inf, np.inf)
+                        model = _ThwaitesFunctions("Custom",
+                                                   data_fits[0],
+                                                   data_fits[1],
+                                                   shape_p_fun,
+                                                   -np.inf, np.inf)
                     else:
                         raise ValueError("Need to pass callable objects for "
                                          + "fit functions")
@@ -162,6 +163,7 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._solution = None  # existing solution is for another data fit
+        self._model = model
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
                                                       self._model.separation))
 
-- 
2.43.0

