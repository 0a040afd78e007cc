From f4740d713bb8224c2ab5105db85a4525fa89625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 1/6] fix: give the generated __deepcopy__ the memo argument
 Python passes

copy.deepcopy(obj) calls obj.__deepcopy__(memo); the generated method took no
argument, so deep-copying any exposed object raised TypeError.
---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..45e48c8 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: &PyDict) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From cf8c985091af70d2791589bca349aba52b3d8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 2/6] fix: report a malformed solver_type text as an error from
 the example constructors

The Python constructors of System3TM and System3TMWithBC unwrapped the parse
result, so a malformed solver setting panicked instead of raising an exception.
---
 dess-examples/src/three_thermal_mass_sys.rs    | 8 ++++----
 dess-examples/src/three_thrml_mass_w_bc_sys.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dess-examples/src/three_thermal_mass_sys.rs b/dess-examples/src/three_thermal_mass_sys.rs
index fdbd5e2..43a0e46 100644
--- a/dess-examples/src/three_thermal_mass_sys.rs
+++ b/dess-examples/src/three_thermal_mass_sys.rs
@@ -12,9 +12,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self { 
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(), 
+    ) -> PyResult<Self> { 
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?, 
             m1, 
             m2, 
             h12, 
@@ -23,7 +23,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
diff --git a/dess-examples/src/three_thrml_mass_w_bc_sys.rs b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
index 72e720b..007501a 100644
--- a/dess-examples/src/three_thrml_mass_w_bc_sys.rs
+++ b/dess-examples/src/three_thrml_mass_w_bc_sys.rs
@@ -13,9 +13,9 @@ use crate::imports::*;
         m3: ThermalMass,
         h23: Conductance,
         t_report: Vec<f64>,
-    ) -> Self {
-        Self{
-            solver_type: SolverTypes::from_json(&solver_type).unwrap(),
+    ) -> PyResult<Self> {
+        Ok(Self{
+            solver_type: SolverTypes::from_json(&solver_type)?,
             m1,
             m2,
             h12,
@@ -24,7 +24,7 @@ use crate::imports::*;
             t_report,
             state: Default::default(),
             history: Default::default(),
-        }
+        })
     }
 
     #[classmethod]
-- 
2.43.0


From fec9b076547508b91c5b84c197e16f972bd1ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 3/6] fix: keep the adaptive step carried to the next step
 finite and within dt_max

A zero error estimate made the carried step infinite (or NaN with a zero
tolerance), which JSON writes as null and cannot be read back.
---
 dess/src/solver.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..04bfa3f 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,9 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; the limit also keeps `dt` finite
+                // when the error is exactly zero (`f64::min` ignores NaN)
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +658,9 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step; the limit also keeps `dt` finite
+                // when the error is exactly zero (`f64::min` ignores NaN)
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From 609440229099a2aa3882f07f8cae119a135c5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 4/6] fix: reject forbidden function names in non-exclusive
 macro argument lists

pyo3_api lists default and default_py as forbidden, but the check only ran for
exclusive lists, so they were accepted there.
---
 dess/dess-proc-macros/src/utilities.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/utilities.rs b/dess/dess-proc-macros/src/utilities.rs
index c2c9862..e515b5e 100644
--- a/dess/dess-proc-macros/src/utilities.rs
+++ b/dess/dess-proc-macros/src/utilities.rs
@@ -70,9 +70,8 @@ pub fn parse_ts_as_fn_defs(
                 let sig_str = &item_meth.sig.ident.to_token_stream().to_string();
                 fn_from_attr.extend(item_meth.clone().to_token_stream());
                 // check signature
-                if expected_exclusive
-                    && (forbidden_fn_names.contains(sig_str)
-                        || !expected_fn_names.contains(sig_str))
+                if forbidden_fn_names.contains(sig_str)
+                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                 {
                     emit_error!(
                         &item_meth.sig.ident.span(),
-- 
2.43.0


From f98cd076995d57fe6b486d259dec7785c1e26520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 5/6] fix: register the documented struct-level walk helper
 attribute of pyo3_api

---
 dess/dess-proc-macros/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/lib.rs b/dess/dess-proc-macros/src/lib.rs
index 121c21c..f41a85e 100644
--- a/dess/dess-proc-macros/src/lib.rs
+++ b/dess/dess-proc-macros/src/lib.rs
@@ -51,7 +51,7 @@ pub fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
 /// Dummy derive macro for registering [pyo3_api] attributes.  
 /// This may not be the cleanest way to do this.
 #[proc_macro_error]
-#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get))]
+#[proc_macro_derive(Pyo3ApiCleanup, attributes(skip_get, walk))]
 pub fn pyo3_api_cleanup(_item: TokenStream) -> TokenStream {
     TokenStream::new()
 }
-- 
2.43.0


From d910b412fb4c3ce66f6c861237abfd7132c2fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 6/6] fix: linspace with one or zero points

One point gave NaN (0 * 0/0) and zero points underflowed.
---
 dess/src/traits_and_macros.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..43dca5d 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,9 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
-        let n_steps = n_elements - 1;
+        // a single point has no step
+        let n_steps = n_elements.saturating_sub(1).max(1);
         let step_size = (stop - start) / n_steps as f64;
-        let v_norm: Vec<f64> = (0..=n_steps)
+        let v_norm: Vec<f64> = (0..n_elements)
             .collect::<Vec<usize>>()
             .iter()
             .map(|x| *x as f64)
-- 
2.43.0

