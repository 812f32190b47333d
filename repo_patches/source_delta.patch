From 031a9f8ab4eaba817d37513f9f1ff54fbc9c1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:56 +0000
Subject: [PATCH 01/14] fix: read Runge-Kutta stage coefficients row by row

The stage loop indexed the Butcher matrix as a[[p, q]], i.e. the transposed
(empty) upper triangle, so every multi-stage scheme degenerated to
forward Euler.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 49591cd579d854101a3a56039cfa14cbbf70d773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:11 +0000
Subject: [PATCH 02/14] fix: guard the van Leer slope against 0/0 with the
 smallest positive float

f64::MIN is the most negative float (-1.8e308), so adding it to the denominator
made every van Leer slope vanish.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 6bfac5e274a40e4c91aa441390406104e98102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:30 +0000
Subject: [PATCH 03/14] fix: limit the CFL step width by the fastest wave in
 either direction

Only v + c was considered: left-going flows took steps far beyond the CFL
limit, and v = -c made the step width infinite.
---
 src/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..1cd1143 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,11 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        // the fastest wave may travel in either direction
+        let fastest = Zip::from(&self.cent.eigen_min())
+            .and(&self.cent.eigen_max())
+            .map_collect(|ev_min, ev_max| ev_min.abs().max(ev_max.abs()));
+        P::calc_dt_cfl(&fastest.view(), c_cfl, mesh)
     }
 }
 
-- 
2.43.0


From aed91df694052e8152b7fcfba146ffb27d4b8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:44 +0000
Subject: [PATCH 04/14] fix: reject steps that end in a non-positive density or
 pressure

The positivity checks of the physics systems existed but were never called, so
with validation enabled a run happily continued with negative pressure.
---
 src/time/rkf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..e6b8be3 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -132,6 +132,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
         if cfg!(feature = "validation") {
             u.validate()
                 .context("Calling u.update_everything_from_prim at the end of RungeKuttaFehlberg::calc_rkf_solution")?;
+            P::validate(&u.cent)
+                .context("Validating the physical state at the end of RungeKuttaFehlberg::next_solution")?;
         }
 
         time.t += time.dt;
-- 
2.43.0


From 3a2a65acc4505af5f31e5ec3b13f73586e357216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:23 +0000
Subject: [PATCH 05/14] fix: truncate output files before writing them

Files left by an earlier, longer run kept their tail behind the new content.
---
 src/writer/output.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..6fc9735 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -197,7 +198,7 @@ impl Output {
                         let path = Path::new(&full_path_string);
                         let mut file = File::options()
                             .write(true)
-                            .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -270,7 +271,7 @@ impl Output {
                     let path = Path::new(&full_path_string);
                     let mut file = File::options()
                         .write(true)
-                        .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From 3fc750f6c74bab63d8e0bb882c7660d7965c7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:50 +0000
Subject: [PATCH 06/14] fix: end the output schedule and the last step exactly
 at t_end

The next output time is a running sum, so for many output counts it drifted past
t_end, and since steps were only capped at the next output the run overshot
t_end by up to a whole step (and could write a surplus output).
---
 src/components.rs    | 4 ++++
 src/time/timestep.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..4064de9 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -73,6 +73,10 @@ where
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
                 solver.timestep.t_next_output += solver.timestep.dt_output;
+                // accumulated rounding errors must not separate the last output from the end of the simulation
+                if (solver.timestep.t_next_output - solver.timestep.t_end).abs() < 0.5 * solver.timestep.dt_output {
+                    solver.timestep.t_next_output = solver.timestep.t_end;
+                }
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..6b836cc 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -150,8 +150,13 @@ impl TimeStep {
     /// not exceed the point where the next output should be produced.
     pub fn cap_dt(&mut self) {
         self.dt = self.dt.min(self.dt_max);
-        if (self.dt + self.t) / self.t_next_output > 1.0 {
-            self.dt = self.t_next_output - self.t;
+        let t_limit = if self.t < self.t_end {
+            self.t_next_output.min(self.t_end)
+        } else {
+            self.t_next_output
+        };
+        if (self.dt + self.t) / t_limit > 1.0 {
+            self.dt = t_limit - self.t;
         }
     }
 }
-- 
2.43.0


From c72c8fe7a0bd6b6914485eb541ad928ed1fa1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 07/14] fix: do not collapse the step width when the embedded
 error vanishes

With err_new == 0 and err_old > 0 the PI factor was exp(-ln(inf)) = 0, so the
accepted step had zero width and the run stopped advancing.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index e6b8be3..108b432 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -211,7 +211,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 // PI-Controller step: Controlled increase or decrease of the time step based on the error of the
                 // previous try-out. If the error was also > 0 in the last try-out, reduce it further and save
                 // in dt_new. Otherwise, leave it as is and save in dt_new.
-                let mut dt_new = if self.err_old > 0.0 {
+                let mut dt_new = if self.err_old > 0.0 && self.err_new > 0.0 {
                     dt_temp * (-1.0 * self.asc_timestep_friction * (self.err_old / self.err_new).ln()).exp()
                 } else {
                     dt_temp
-- 
2.43.0


From 23de4e6223a529a7fe1814c3b7724028cec607e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:10 +0000
Subject: [PATCH 08/14] fix: normalise the embedded error by the magnitude of
 the solution

For negative momenta the denominator could vanish or turn tiny, so mirrored flows
were controlled by different errors.
---
 src/time/rkf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 108b432..c63198a 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -191,7 +191,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 .and(&self.u_cons_low.slice(s))
                 .fold(0.0f64, |acc, ucons, ulow| {
                     acc.max(
-                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons + self.asc_absolute_tolerance))).abs(),
+                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons.abs() + self.asc_absolute_tolerance)))
+                            .abs(),
                     )
                 });
 
-- 
2.43.0


From b317f531896cbe7ad544bbd625e45625dbdd3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:16 +0000
Subject: [PATCH 09/14] fix: stop with an error when step control drives dt
 below dt_min

dt_min was only checked before the first trial, so rejected trials could shrink
the step width without bound.
---
 src/time/rkf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index c63198a..3af89fa 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -11,7 +11,7 @@ use crate::{
     TimeIntegrationConfig,
 };
 use color_eyre::{
-    eyre::{ensure, Context},
+    eyre::{bail, ensure, Context},
     Result,
 };
 use ndarray::{s, Array2, Array3, Axis, Zip};
@@ -116,6 +116,12 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 if self.err_new < 1.0 {
                     time.cap_dt();
                     self.solution_accepted = true;
+                } else if time.dt < time.dt_min {
+                    bail!(
+                        "Time step width dt dipped below dt_min during step control! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From 8bfe89c1d0a4a283343a6a5f0ffd8df59944048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:34 +0000
Subject: [PATCH 10/14] fix: convert SI lengths and masses to CGS instead of
 returning them unchanged

---
 src/units.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..1597d79 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -75,8 +75,7 @@ impl Units {
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
+            UnitsMode::SI | UnitsMode::CGS => si_input / LENGTH_CGS,
         }
     }
 
@@ -93,8 +92,7 @@ impl Units {
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
+            UnitsMode::SI | UnitsMode::CGS => si_input / MASS_CGS,
         }
     }
 }
-- 
2.43.0


From 3d1b8bb11d28991bb155768ef81cbdab63e21f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:40 +0000
Subject: [PATCH 11/14] fix: do not interleave the rows of several stdout
 outputs

Outputs are written in parallel and each fragment of a row locked stdout on its
own, so rows of different outputs got mixed.
---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index 6fc9735..b9c1271 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -208,7 +208,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // hold the lock for the whole block, since other outputs may be writing to stdout concurrently
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 279ffbba0d96e2a9120c86a4b63b8766b6ee40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:49 +0000
Subject: [PATCH 12/14] fix: keep nested output folders when an enclosing
 folder is cleared later

An output whose folder lies inside the folder of a later output that clears its
folder lost its folder during initialisation and then failed to write.
---
 src/writer.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index aefa32d..a10e206 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -7,9 +7,13 @@
 pub use self::data::*;
 use self::output::*;
 use crate::prelude::*;
-use color_eyre::{eyre::bail, Result};
+use color_eyre::{
+    eyre::{bail, WrapErr},
+    Result,
+};
 use ndarray::{s, Array1, ArrayView1};
 use rayon::prelude::{IntoParallelRefMutIterator, ParallelIterator};
+use std::fs::create_dir_all;
 
 pub mod data;
 mod output;
@@ -70,6 +74,13 @@ impl Writer {
             let output = Output::new(outputconf, mesh, config.output_counter_max)?;
             outputs.push(output);
         }
+        // clearing the folder of one output may have removed the (nested) folder of an earlier one
+        for outputconf in config.writer_config.iter() {
+            if let StreamMode::File = outputconf.stream_mode {
+                create_dir_all(&outputconf.folder_name)
+                    .wrap_err_with(|| format!("Failed to create directory {}", outputconf.folder_name))?;
+            }
+        }
         Ok(Self {
             outputs,
             output_counter: 0,
-- 
2.43.0


From b5accab9b630e57afac59970b4bda8ee7b03f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 13/14] fix: do not add a machine epsilon to the cell volume
 before inverting it

The inverse volume was off by EPSILON/volume, i.e. by half on a mesh whose cells
are 2e-16 wide, and did not agree with the documented deta * dphi / volume.
---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0


From 51cb10af733bba6bb0be015b72f3e1f4076c4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 14/14] fix: return lengths and masses that are in CGS already
 unchanged from the conversion to CGS

---
 src/units.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1597d79..bdae443 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -75,7 +75,8 @@ impl Units {
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
         match self.mode {
-            UnitsMode::SI | UnitsMode::CGS => si_input / LENGTH_CGS,
+            UnitsMode::SI => si_input / LENGTH_CGS,
+            UnitsMode::CGS => input,
         }
     }
 
@@ -92,7 +93,8 @@ impl Units {
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
         match self.mode {
-            UnitsMode::SI | UnitsMode::CGS => si_input / MASS_CGS,
+            UnitsMode::SI => si_input / MASS_CGS,
+            UnitsMode::CGS => input,
         }
     }
 }
-- 
2.43.0

