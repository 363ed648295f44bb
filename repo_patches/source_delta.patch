From 49d5454d62505d5e22054b77183eeb0c4120d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 01/21] fix: bound Newton retries so a solve always returns

A recoverable convergence failure with a current Jacobian fell out of the
match and restarted the attempt forever instead of being returned, and a
recoverable failure of the residual or of setup before the iteration was
retried without limit. Return the failure, and retry at most once.
---
 crates/nonlinear/src/newton.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/nonlinear/src/newton.rs b/crates/nonlinear/src/newton.rs
index 7cf5eef..da824a3 100644
--- a/crates/nonlinear/src/newton.rs
+++ b/crates/nonlinear/src/newton.rs
@@ -143,13 +143,12 @@ where
 
                 // If there is a recoverable convergence failure and the Jacobian-related data appears not to be
                 // current, increment the convergence failure count and loop again with a call to lsetup in which jbad = true.
-                Err(Error::ConvergenceRecover {}) => {
-                    if !self.jcur {
-                        self.nconvfails += 1;
-                        call_lsetup = true;
-                        jbad = true;
-                        continue 'outer;
-                    }
+                // This is tried only once per solve: if the retry fails too, the failure goes back to the caller.
+                Err(Error::ConvergenceRecover {}) if !self.jcur && !jbad => {
+                    self.nconvfails += 1;
+                    call_lsetup = true;
+                    jbad = true;
+                    continue 'outer;
                 }
 
                 // Otherwise break out and return.
-- 
2.43.0


From eba388ea38c2f95485fcf800114049a0700fdabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 02/21] fix: factor columns whose pivot has no finite
 reciprocal

---
 crates/linear/src/dense.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/linear/src/dense.rs b/crates/linear/src/dense.rs
index 3a34517..d67ed88 100644
--- a/crates/linear/src/dense.rs
+++ b/crates/linear/src/dense.rs
@@ -131,9 +131,17 @@ where
 
         // Scale the elements below the diagonal in column k by 1.0 / a[k,k]. After the above swap a[k,k] holds the pivot
         // element. This scaling stores the pivot row multipliers a(i,k)/a(k,k) in a(i,k), i=k+1, ..., m-1.
-        let mult = mat_a[(k, k)].recip();
-        for i in (k + 1)..m {
-            mat_a[(i, k)] *= mult;
+        let a_kk = mat_a[(k, k)];
+        let mult = a_kk.recip();
+        if mult.is_finite() {
+            for i in (k + 1)..m {
+                mat_a[(i, k)] *= mult;
+            }
+        } else {
+            // the reciprocal of a subnormal pivot overflows, the multipliers themselves do not
+            for i in (k + 1)..m {
+                mat_a[(i, k)] /= a_kk;
+            }
         }
 
         // row_i = row_i - [a(i,k)/a(k,k)] row_k, i=k+1, ..., m-1
-- 
2.43.0


From 8b4fa9152db7a53528ed5177f77d80624b90645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 03/21] fix: retry a step whose Newton iteration did not
 converge

---
 src/error.rs |  2 ++
 src/lib.rs   | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0055934..b2e766e 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,6 +12,8 @@ pub enum Recoverable {
     Constraint,
     /// IDA_NLS_SETUP_RECVR
     NLSSetup,
+    /// SUN_NLS_CONV_RECVR
+    Convergence,
 }
 
 #[derive(Debug, Fail)]
diff --git a/src/lib.rs b/src/lib.rs
index 9bf7fe5..521407f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -848,8 +848,16 @@ where
         self.nlp.ida_yp.assign(&self.nlp.ida_yppredict);
         self.nlp.ida_yp.scaled_add(self.nlp.lp.ida_cj, &self.ida_ee);
 
-        // return if nonlinear solver failed */
-        retval?;
+        // return if nonlinear solver failed; a failure to converge is recoverable
+        retval.map_err(|err| match err.downcast::<nonlinear::Error>() {
+            Ok(nonlinear::Error::ConvergenceRecover {}) => {
+                failure::Error::from(IdaError::RecoverableFail {
+                    rec_type: Recoverable::Convergence,
+                })
+            }
+            Ok(err) => failure::Error::from(err),
+            Err(err) => err,
+        })?;
 
         // If otherwise successful, check and enforce inequality constraints.
 
-- 
2.43.0


From f1bb473ef621fefffb5df6899b3694faf18376cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:22 +0000
Subject: [PATCH 04/21] fix: rescale only phi[1] when the first step is
 predicted again

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 521407f..b8e7e29 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1256,7 +1256,8 @@ where
     /// reset phi[1] and psi[0].
     fn reset(&mut self) -> () {
         self.ida_psi[0] = self.ida_hh;
-        self.ida_phi *= self.ida_rr;
+        let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+        phi *= self.ida_rr;
     }
 
     /// This routine evaluates `y(t)` and `y'(t)` as the value and derivative of the interpolating
-- 
2.43.0


From 84e7344ec058c771a8073df3b1b2dd5579c4d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 05/21] fix: treat a linear solver failure as a recoverable
 step failure

---
 src/ida_ls.rs  | 19 ++++++++++++++++---
 src/ida_nls.rs |  9 ++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index 387ee56..f2b3f15 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -2,6 +2,7 @@ use log::warn;
 use ndarray::prelude::*;
 
 use super::constants::IdaConst;
+use super::error::{IdaError, Recoverable};
 use super::linear::{LSolver, LSolverType};
 use super::traits::IdaProblem;
 use super::IdaCounters;
@@ -234,7 +235,8 @@ where
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::Data<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -284,7 +286,11 @@ where
         }
 
         // Call LS setup routine -- the LS will call idaLsPSetup if applicable
-        self.ls.setup(self.mat_j.view_mut()).unwrap();
+        self.ls.setup(self.mat_j.view_mut()).map_err(|_| {
+            failure::Error::from(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSetup,
+            })
+        })
         //self.last_flag = SUNLinSolSetup(idals_mem->LS, idals_mem->J);
         //return(self.last_flag);
     }
@@ -302,7 +308,8 @@ where
         _ycur: ArrayBase<S3, Ix1>,
         _ypcur: ArrayBase<S4, Ix1>,
         _rescur: ArrayBase<S5, Ix1>,
-    ) where
+    ) -> Result<(), failure::Error>
+    where
         S1: ndarray::DataMut<Elem = P::Scalar>,
         S2: ndarray::Data<Elem = P::Scalar>,
         S3: ndarray::Data<Elem = P::Scalar>,
@@ -452,6 +459,12 @@ where
         */
 
         //return(0);
+
+        retval.map_err(|_| {
+            failure::Error::from(IdaError::RecoverableFail {
+                rec_type: Recoverable::LSolve,
+            })
+        })
     }
 
     /// idaLsPerf: accumulates performance statistics information for IDA
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index 05cebbe..e87dc49 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -167,7 +167,8 @@ where
 
         self.ida_nsetups += 1;
         // ida_lsetup() aka idaLsSetup()
-        self.lp
+        let retval = self
+            .lp
             .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
 
         // update Jacobian status
@@ -183,7 +184,7 @@ where
 
         //return(IDA_SUCCESS);
 
-        Ok(true)
+        retval.map(|_| true)
     }
 
     /// idaNlsLSolve
@@ -202,7 +203,7 @@ where
             self.ida_yy.view(),
             self.ida_yp.view(),
             self.ida_savres.view(),
-        );
+        )
 
         // lp solved, delta = [-0.00000000000000001623748801571458, -0.0000000004872681362104435, 0.0000000004865181206243604]
         //[7.5001558608301906e-13,-4.8726813621044346e-10,4.8651812062436036e-10,]
@@ -210,8 +211,6 @@ where
 
         //if (retval < 0) return(IDA_LSOLVE_FAIL);
         //if (retval > 0) return(IDA_LSOLVE_RECVR);
-
-        Ok(())
     }
 
     /// idaNlsConvTest
-- 
2.43.0


From 46f59f748d15240de5339ed15e8966a13a8336e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 06/21] fix: evaluate the Jacobian at the current time

---
 src/ida_ls.rs  | 4 ++--
 src/ida_nls.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ida_ls.rs b/src/ida_ls.rs
index f2b3f15..71eff4f 100644
--- a/src/ida_ls.rs
+++ b/src/ida_ls.rs
@@ -232,6 +232,7 @@ where
     /// This calls the Jacobian evaluation routine, updates counters, and calls the LS `setup` routine to prepare for subsequent calls to the LS 'solve' routine.
     pub fn setup<S1, S2, S3>(
         &mut self,
+        tn: P::Scalar,
         y: ArrayBase<S1, Ix1>,
         yp: ArrayBase<S2, Ix1>,
         r: ArrayBase<S3, Ix1>,
@@ -258,9 +259,8 @@ where
 
             // Call Jacobian routine
             //retval = self.jac(IDA_mem->ida_tn, IDA_mem->ida_cj, y, yp, r, idals_mem->J, idals_mem->J_data, vt1, vt2, vt3);
-            //TODO fix
             self.problem.jac(
-                P::Scalar::zero(),
+                tn,
                 self.ida_cj,
                 y.view(),
                 yp.view(),
diff --git a/src/ida_nls.rs b/src/ida_nls.rs
index e87dc49..45ba7cf 100644
--- a/src/ida_nls.rs
+++ b/src/ida_nls.rs
@@ -169,7 +169,7 @@ where
         // ida_lsetup() aka idaLsSetup()
         let retval = self
             .lp
-            .setup(self.ida_yy.view(), self.ida_yp.view(), res.view());
+            .setup(self.ida_tn, self.ida_yy.view(), self.ida_yp.view(), res.view());
 
         // update Jacobian status
         //*jcur = SUNTRUE;
-- 
2.43.0


From f4d7b2ad1360aca91830690978669db6d151b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 07/21] fix: report the direction of a root with the documented
 sign

---
 src/impl_r_check.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 0ffd576..94d2a9a 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -401,7 +401,11 @@ where
                         let rootdir_glo_neg = <P::Scalar as NumCast>::from(rootdir).unwrap() * glo
                             <= P::Scalar::zero();
                         if (ghi.abs() == P::Scalar::zero()) && rootdir_glo_neg {
-                            *iroots = glo.signum();
+                            *iroots = if glo > P::Scalar::zero() {
+                            -P::Scalar::one()
+                        } else {
+                            P::Scalar::one()
+                        };
                         }
                     }
                 });
@@ -567,7 +571,11 @@ where
                     if rootdir_glo_neg
                         && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
                     {
-                        *iroots = glo.signum();
+                        *iroots = if glo > P::Scalar::zero() {
+                            -P::Scalar::one()
+                        } else {
+                            P::Scalar::one()
+                        };
                     }
                 }
             });
-- 
2.43.0


From 330cd2af88d5805e493138d1fbad89e633f105ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 08/21] fix: watch every root function from the first step on

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8e7e29..bb34315 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -370,7 +370,7 @@ where
             ida_mxgnull: 1,
             ida_tlo: P::Scalar::zero(),
             ida_ttol: P::Scalar::zero(),
-            ida_gactive: Array::from_elem(problem.num_roots(), false),
+            ida_gactive: Array::from_elem(problem.num_roots(), true),
             ida_taskc: IdaTask::Normal,
             ida_toutc: P::Scalar::zero(),
             ida_thi: P::Scalar::zero(),
-- 
2.43.0


From 98584c8093e7425ed9e3963000fab823afc26232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 09/21] fix: sum get_dky over the columns its recurrence needs

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb34315..855dedb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -496,7 +496,7 @@ where
             // update c_j^(i)
             //j does not need to go till kused
             //for(j=i+1; j<=self.ida_kused-k+i; j++) {
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk[j] =
                     (scalar_i * cjk_1[j - 1] + cjk[j - 1] * (delt + psij_1)) / self.ida_psi[j - 1];
                 psij_1 = self.ida_psi[j - 1];
@@ -504,7 +504,7 @@ where
 
             // save existing c_j^(i)'s
             //for(j=i+1; j<=self.ida_kused-k+i; j++)
-            for j in i + 1..self.ida_kused - k + 1 + 1 {
+            for j in i + 1..self.ida_kused - k + i + 1 {
                 cjk_1[j] = cjk[j];
             }
         }
-- 
2.43.0


From a3ea05f54755287f622722ec4b51be153cccdb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 10/21] fix: allow solve to be called again after a failed
 first step

---
 src/impl_solve.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 51a2160..146d095 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -108,6 +108,13 @@ where
                 })?
             }
 
+            // If an earlier call failed before its first step completed, undo its scaling of phi[1].
+            if self.ida_psi[0] != P::Scalar::zero() {
+                let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
+                phi /= self.ida_psi[0];
+                self.ida_psi[0] = P::Scalar::zero();
+            }
+
             self.ida_hh = self.ida_hin;
             if (self.ida_hh != P::Scalar::zero())
                 && ((tout - self.nlp.ida_tn) * self.ida_hh < P::Scalar::zero())
@@ -166,6 +173,7 @@ where
             // set phi[1] = hh*y'
             let mut phi = self.ida_phi.index_axis_mut(Axis(0), 1);
             phi *= self.ida_hh;
+            self.ida_psi[0] = self.ida_hh;
 
             // Set the convergence test constants epsNewt and toldel
             self.ida_eps_newt = self.ida_epcon;
-- 
2.43.0


From 1e090aeb5cdbb07f4d1a2db850adced940abec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 11/21] fix: fail when a root function is not a number while a
 root is located

---
 src/impl_r_check.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 94d2a9a..316a216 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -481,7 +481,11 @@ where
                 self.ida_grout.view_mut(),
             );
             self.ida_nge += 1;
-            //if (retval != 0) return(IDA_RTFUNC_FAIL);
+            if self.ida_grout.iter().any(|g| g.is_nan()) {
+                Err(IdaError::RootFunctionFail {
+                    t: tmid.to_f64().unwrap(),
+                })?
+            }
 
             // Check to see in which subinterval g changes sign, and reset imax.
             // Set side = 1 if sign change is on low side, or 2 if on high side.
-- 
2.43.0


From 5def25117d1c889795b548424ff4b79e05d7a801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 12/21] fix: restore psi[kk] after a failed attempt at a lower
 order

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 855dedb..1a22c50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -642,6 +642,8 @@ where
             // Set method coefficients
             //-----------------------
 
+            // set_coeffs() overwrites psi[kk], which the last step still needs if its order was higher
+            let saved_psi = self.ida_psi[self.ida_kk];
             let ck = self.set_coeffs();
 
             //kflag = IDA_SUCCESS;
@@ -676,6 +678,7 @@ where
                 .or_else(|(err_k, err_km1, err)| {
                     // restore and decide what to do
                     self.restore(saved_t);
+                    self.ida_psi[self.ida_kk] = saved_psi;
 
                     self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)
                         .map(|_| {
-- 
2.43.0


From dacda93531c5c0cab60641436321db3b35c615f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 13/21] fix: keep counting root evaluations when the first call
 is repeated

---
 src/impl_r_check.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 316a216..5bc857b 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -48,7 +48,7 @@ where
             self.ida_glo.view_mut(),
         );
 
-        self.ida_nge = 1;
+        self.ida_nge += 1;
 
         let zroot = ndarray::Zip::from(self.ida_gactive.view_mut())
             .and(&self.ida_glo)
-- 
2.43.0


From f56fdb0785cc7b5f426f17ca8d65b4ca834cb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 14/21] fix: return the solution at tout when it was the last
 output time

---
 src/impl_stop_test.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index e972b0f..6a40610 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -52,6 +52,7 @@ where
             IdaTask::Normal => {
                 // Test for tout = tretlast, and for tn past tout.
                 if tout == self.ida_tretlast {
+                    self.get_solution(tout)?;
                     self.ida_tretlast = tout;
                     *tret = tout;
                     return Ok(IdaSolveStatus::Success);
-- 
2.43.0


From 657a4553ba8b020def162725adab47e2e6f2b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:51 +0000
Subject: [PATCH 15/21] fix: refuse a tout behind the last step before looking
 for roots there

---
 src/impl_r_check.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 5bc857b..045ae76 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -233,7 +233,7 @@ where
         }
 
         // Get y and y' at thi.
-        self.get_solution(self.ida_thi);
+        self.get_solution(self.ida_thi)?;
 
         // Set ghi = g(thi) and call IDARootfind to search (tlo,thi) for roots.
         self.nlp.lp.problem.root(
-- 
2.43.0


From c2fdd2ddbedf7279292c1e8937522958f834b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:48 +0000
Subject: [PATCH 16/21] fix: forget an undone attempt when counting steps of
 equal length

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1a22c50..d0f6d89 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -644,6 +644,7 @@ where
 
             // set_coeffs() overwrites psi[kk], which the last step still needs if its order was higher
             let saved_psi = self.ida_psi[self.ida_kk];
+            let saved_ns = self.ida_ns;
             let ck = self.set_coeffs();
 
             //kflag = IDA_SUCCESS;
@@ -679,6 +680,7 @@ where
                     // restore and decide what to do
                     self.restore(saved_t);
                     self.ida_psi[self.ida_kk] = saved_psi;
+                    self.ida_ns = saved_ns;
 
                     self.handle_n_flag(err, err_k, err_km1, &mut ncf, &mut nef)
                         .map(|_| {
-- 
2.43.0


From 8811d80a1d287dedb75af8c52cebb51f64073276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 17/21] fix: do not search backwards for roots

---
 src/impl_r_check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index 045ae76..c768082 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -235,6 +235,11 @@ where
         // Get y and y' at thi.
         self.get_solution(self.ida_thi)?;
 
+        // A tout that goes back behind tlo leaves nothing new to search.
+        if (self.ida_thi - self.ida_tlo) * self.ida_hh < P::Scalar::zero() {
+            return Ok(RootStatus::Continue);
+        }
+
         // Set ghi = g(thi) and call IDARootfind to search (tlo,thi) for roots.
         self.nlp.lp.problem.root(
             self.ida_thi,
-- 
2.43.0


From d7614e415906e5de4158a86bbf307e19a7a1a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 18/21] Revert "fix: return the solution at tout when it was
 the last output time"

This reverts commit f56fdb0785cc7b5f426f17ca8d65b4ca834cb3e3.
---
 src/impl_stop_test.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/impl_stop_test.rs b/src/impl_stop_test.rs
index 6a40610..e972b0f 100644
--- a/src/impl_stop_test.rs
+++ b/src/impl_stop_test.rs
@@ -52,7 +52,6 @@ where
             IdaTask::Normal => {
                 // Test for tout = tretlast, and for tn past tout.
                 if tout == self.ida_tretlast {
-                    self.get_solution(tout)?;
                     self.ida_tretlast = tout;
                     *tret = tout;
                     return Ok(IdaSolveStatus::Success);
-- 
2.43.0


From e39196974dfb42afba30e01457e32fb7ef47ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 19/21] fix: return the solution at tout when it was the last
 output time

---
 src/impl_solve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index 146d095..b8e0436 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -238,9 +238,13 @@ where
 
             let istate = self.stop_test1(tout, tret, itask);
             match istate {
+                Ok(IdaSolveStatus::Success) => {
+                    // The search for roots above may have left yy and yp at another time.
+                    self.get_solution(*tret)?;
+                    return istate;
+                }
                 Err(_)
                 | Ok(IdaSolveStatus::Root)
-                | Ok(IdaSolveStatus::Success)
                 | Ok(IdaSolveStatus::TStop) => {
                     return istate;
                 }
-- 
2.43.0


From f0c7cf2aff39c2d7a4d80ed381c1b76c6c3f021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 20/21] fix: refuse error weights that are not positive and
 finite

The weights of the initial values were not checked at all, and later ones
only for being <= 0: a zero tolerance next to a zero component (infinite
weight) or a NaN weight ended in repeated convergence failures instead.
---
 src/impl_solve.rs |  4 ++--
 src/lib.rs        | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/impl_solve.rs b/src/impl_solve.rs
index b8e0436..de661f3 100644
--- a/src/impl_solve.rs
+++ b/src/impl_solve.rs
@@ -86,7 +86,7 @@ where
 
             // Check inputs to IDA for correctness and consistency */
             if !self.ida_setup_done {
-                self.initial_setup();
+                self.initial_setup()?;
                 self.ida_setup_done = true;
             }
 
@@ -281,7 +281,7 @@ where
                     self.nlp.ida_ewt.view_mut(),
                 );
 
-                if self.nlp.ida_ewt.iter().any(|&x| x <= P::Scalar::zero()) {
+                if self.ewt_is_bad() {
                     let _ier = self.get_solution(self.nlp.ida_tn);
                     *tret = self.nlp.ida_tn;
                     self.ida_tretlast = self.nlp.ida_tn;
diff --git a/src/lib.rs b/src/lib.rs
index d0f6d89..46db9c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -534,7 +534,7 @@ where
     /// inputs and inputs to `init`/`reinit` that could not be done before.
     ///
     /// If no error is encountered, IDAInitialSetup returns IDA_SUCCESS. Otherwise, it returns an error flag and reported to the error handler function.
-    fn initial_setup(&mut self) {
+    fn initial_setup(&mut self) -> Result<(), failure::Error> {
         //booleantype conOK;
         //int ier;
 
@@ -543,6 +543,11 @@ where
             self.ida_phi.index_axis(Axis(0), 0),
             self.nlp.ida_ewt.view_mut(),
         );
+        if self.ewt_is_bad() {
+            Err(IdaError::IllegalInput {
+                msg: format!("Some initial ewt component is not positive and finite."),
+            })?
+        }
 
         /*
         // Check to see if y0 satisfies constraints.
@@ -564,7 +569,15 @@ where
         }
         */
 
-        //return(IDA_SUCCESS);
+        Ok(())
+    }
+
+    /// Whether some error weight is unusable: every one has to be positive and finite.
+    fn ewt_is_bad(&self) -> bool {
+        self.nlp
+            .ida_ewt
+            .iter()
+            .any(|&x| !(x > P::Scalar::zero() && x.is_finite()))
     }
 
     /// This routine performs one internal IDA step, from `tn` to `tn + hh`. It calls other
-- 
2.43.0


From 3a5f6e1259bd3fafcf3358137c65233b23121a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 21/21] fix: find sign changes of root functions whose product
 underflows

---
 src/impl_r_check.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/impl_r_check.rs b/src/impl_r_check.rs
index c768082..46de272 100644
--- a/src/impl_r_check.rs
+++ b/src/impl_r_check.rs
@@ -370,9 +370,9 @@ where
                                 zroot = true;
                             }
                         } else {
-                            if (glo * ghi < P::Scalar::zero()) && rootdir_glo_neg {
+                            if opposite_signs(glo, ghi) && rootdir_glo_neg {
                                 let gfrac = (ghi / (ghi - glo)).abs();
-                                if gfrac > maxfrac {
+                                if !sgnchg || gfrac > maxfrac {
                                     sgnchg = true;
                                     maxfrac = gfrac;
                                     imax = i;
@@ -516,9 +516,9 @@ where
                             if grout.abs() == P::Scalar::zero() && rootdir_glo_neg {
                                 zroot = true;
                             } else {
-                                if (glo * grout) < P::Scalar::zero() && rootdir_glo_neg {
+                                if opposite_signs(glo, grout) && rootdir_glo_neg {
                                     let gfrac = (grout / (grout - glo)).abs();
-                                    if gfrac > maxfrac {
+                                    if !sgnchg || gfrac > maxfrac {
                                         sgnchg = true;
                                         maxfrac = gfrac;
                                         imax = i;
@@ -578,7 +578,7 @@ where
                     let rootdir_glo_neg =
                         <P::Scalar as NumCast>::from(rootdir).unwrap() * glo <= P::Scalar::zero();
                     if rootdir_glo_neg
-                        && (ghi.abs() == P::Scalar::zero() || (glo * ghi < P::Scalar::zero()))
+                        && (ghi.abs() == P::Scalar::zero() || opposite_signs(glo, ghi))
                     {
                         *iroots = if glo > P::Scalar::zero() {
                             -P::Scalar::one()
@@ -592,3 +592,8 @@ where
         Ok(RootStatus::RootFound)
     }
 }
+
+/// Whether `a` and `b` have opposite signs. Unlike `a * b < 0`, this does not underflow.
+fn opposite_signs<T: num_traits::Float>(a: T, b: T) -> bool {
+    (a < T::zero() && b > T::zero()) || (a > T::zero() && b < T::zero())
+}
-- 
2.43.0

