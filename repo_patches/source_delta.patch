From 9923b603793825c116a4c09eb6d1979598342889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:15 +0000
Subject: [PATCH 01/19] fix: use the lower triangle of the Butcher tableau for
 the stage states

The stage loop read bt.a[[p, q]] with p < q, i.e. the strictly upper triangle,
which is zero for explicit methods, so that every Runge-Kutta mode evaluated all
of its stages at the initial state.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 76f909f6ae68e1405cca9fd845c5fc71bce210cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:15 +0000
Subject: [PATCH 02/19] fix: guard the VanLeer denominator with the smallest
 positive double

f64::MIN is the most negative double, which made all VanLeer slopes vanish.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 8a6079c36e69108ea10d2d75a3313d3f53bde5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 03/19] fix: consider signals in both directions for the CFL
 time step

Only the maximal eigen values entered the CFL condition, so flow towards the west
was integrated with unstable (or even infinite) time steps.
---
 src/state.rs         | 7 ++++++-
 src/state/physics.rs | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..5678c21 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,11 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        // signals travel in both directions, so the fastest one may belong to the minimal eigen values
+        let speed_max = Zip::from(&self.cent.eigen_min())
+            .and(&self.cent.eigen_max())
+            .map_collect(|min, max| min.abs().max(max.abs()));
+        P::calc_dt_cfl(&speed_max.view(), c_cfl, mesh)
     }
 }
 
diff --git a/src/state/physics.rs b/src/state/physics.rs
index ee924cc..62e1aa8 100644
--- a/src/state/physics.rs
+++ b/src/state/physics.rs
@@ -226,7 +226,7 @@ pub trait Physics<const E: usize, const S: usize> {
     ///
     /// # Arguments
     ///
-    /// * `eigen_max`: The maximal eigen values per cell
+    /// * `eigen_max`: The maximal absolute eigen values per cell
     /// * `mesh`: The [Mesh] for this simulation
     fn calc_dt_cfl(eigen_max: &ArrayView1<f64>, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
         let dt = c_cfl
-- 
2.43.0


From eacf1963c334347b5b38c012fce013b9fb6daab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 04/19] fix: validate positive densities and pressures in
 State::validate

Physics::validate was never called, although the validation feature promises to
check for positive mass densities and pressures.
---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 5678c21..f623fe6 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -652,7 +652,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
-        Ok(())
+        P::validate(&self.cent)
     }
 }
 
-- 
2.43.0


From e4ca7641678ec63bbd58250c5f53138906a65e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 05/19] fix: truncate output files left over from earlier runs

Without should_clear_out_folder, files of an earlier run were overwritten in
place, so that the tail of a longer old file followed the new data.
---
 src/writer/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..d7ed573 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -198,6 +199,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -271,6 +273,7 @@ impl Output {
                     let mut file = File::options()
                         .write(true)
                         .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From 8819013b738a75c5f08b8f5ab0fa3544172fb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 06/19] fix: lock stdout while writing an output record

Outputs are written in parallel, and every piece of a record locked stdout
separately, so that several stdout outputs could be interleaved mid-line.
---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index d7ed573..992f00d 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -209,7 +209,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // outputs are written in parallel; hold the lock so that this record is not interleaved with others
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 4f11d9d0ba0eb936177af680bcd0816238ee33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 07/19] fix: do not step past the end of the simulation

The accumulated t_next_output can miss t_end by rounding errors larger than dt_min,
in which case the run performed another full CFL step beyond t_end (or, with
output_counter_max = 0, stepped past t_end in any case).
---
 src/components.rs    |  2 +-
 src/time/timestep.rs | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..61d9902 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -72,7 +72,7 @@ where
         let (ref mut u, ref mut solver, ref mesh, ref mut writer) = *self;
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
-                solver.timestep.t_next_output += solver.timestep.dt_output;
+                solver.timestep.advance_t_next_output();
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..e1836f7 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -147,12 +147,26 @@ impl TimeStep {
     }
 
     /// Caps the time step width to an upper limit, for example so that the time coordinate does
-    /// not exceed the point where the next output should be produced.
+    /// not exceed the point where the next output should be produced, or the end of the simulation.
     pub fn cap_dt(&mut self) {
         self.dt = self.dt.min(self.dt_max);
         if (self.dt + self.t) / self.t_next_output > 1.0 {
             self.dt = self.t_next_output - self.t;
         }
+        if self.t < self.t_end && self.dt + self.t > self.t_end {
+            self.dt = self.t_end - self.t;
+        }
+    }
+
+    /// Moves `self.t_next_output` on to the next output.
+    ///
+    /// The last output belongs to `self.t_end`, which the sum of the distances between the outputs only hits up to
+    /// rounding errors.
+    pub(crate) fn advance_t_next_output(&mut self) {
+        self.t_next_output += self.dt_output;
+        if (self.t_next_output - self.t_end).abs() < 0.5 * self.dt_output {
+            self.t_next_output = self.t_end;
+        }
     }
 }
 
-- 
2.43.0


From c34714e90b0c8243de2166d89aa694edda8824d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 08/19] fix: convert lengths and masses from SI to CGS units

The conversions to CGS returned SI values unchanged.
---
 src/units.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..a3126f1 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -74,10 +74,7 @@ impl Units {
     /// Takes the argument representing a length, and converts it to CGS units
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
-        }
+        si_input / LENGTH_CGS
     }
 
     /// Takes the argument representing a time, and converts it to CGS units
@@ -92,10 +89,7 @@ impl Units {
     /// Takes the argument representing a mass, and converts it to CGS units
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
-        }
+        si_input / MASS_CGS
     }
 }
 
-- 
2.43.0


From 7ae8ff9bac8e2fa9b3ea896d483f45f7b68cecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 09/19] fix: use the magnitude of the solution in the asc error
 estimate

Negative momenta close to -asc_absolute_tolerance blew up the relative error.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..c6d5f75 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -189,7 +189,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 .and(&self.u_cons_low.slice(s))
                 .fold(0.0f64, |acc, ucons, ulow| {
                     acc.max(
-                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons + self.asc_absolute_tolerance))).abs(),
+                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons.abs() + self.asc_absolute_tolerance))).abs(),
                     )
                 });
 
-- 
2.43.0


From f8201b5e57433688bd70fd8da62c479c354720c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 10/19] fix: take the step that automated step control has
 accepted

On acceptance, dt was multiplied by up to 4 and the solution recalculated without
another error estimate, so that steps were neither within the tolerances nor within
the CFL limit. Rejected steps could also shrink below dt_min.
---
 src/time/rkf.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index c6d5f75..40e1197 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -110,12 +110,20 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
             self.solution_accepted = false;
             self.n_asc = 0;
             while !self.solution_accepted {
-                time.dt = self.calc_rkf_solution(time.dt, u, rhs, mesh).context(
+                let dt_new = self.calc_rkf_solution(time.dt, u, rhs, mesh).context(
                     "RungeKuttaFehlberg::calc_rkf_solution in the while loop in RungeKuttaFehlberg::next_solution",
                 )?;
                 if self.err_new < 1.0 {
-                    time.cap_dt();
+                    // the error has been estimated for this dt, and dt is already as large as the other limits allow
                     self.solution_accepted = true;
+                } else {
+                    time.dt = dt_new;
+                    ensure!(
+                        time.dt >= time.dt_min,
+                        "Time step width dt dipped below dt_min! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From 84b111ac2f90b8519046520c0082bfe63f61acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:40 +0000
Subject: [PATCH 11/19] fix: clear all output folders before creating any

---
 src/writer.rs        |  2 ++
 src/writer/output.rs | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index aefa32d..5e1b89d 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -65,6 +65,8 @@ impl Writer {
     /// * `config` - Configuration for a corries simulation
     /// * `mesh` - The mesh for this simulation
     pub fn new<const S: usize>(config: &CorriesConfig, mesh: &Mesh<S>) -> Result<Self> {
+        // Clear all the folders before creating any, because they may be nested
+        config.writer_config.iter().try_for_each(Output::clear_out_folder)?;
         let mut outputs = vec![];
         for outputconf in config.writer_config.iter() {
             let output = Output::new(outputconf, mesh, config.output_counter_max)?;
diff --git a/src/writer/output.rs b/src/writer/output.rs
index 992f00d..0459446 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -67,19 +67,30 @@ unsafe impl Send for Output {}
 unsafe impl Sync for Output {}
 
 impl Output {
-    /// Builds a new `color_eyre::Result<Output>` object.
+    /// Removes the output folder, if `outputconfig` asks for that and the folder exists.
     ///
     /// # Arguments
     ///
     /// * `outputconf` - `OutputConfig` containing configuration to build `Output` objects
-    /// * `mesh` - provides information about the mesh in this simulation
-    /// * `output_counter_max` - How many distinct outputs should be written during this run
-    pub fn new<const S: usize>(outputconfig: &OutputConfig, mesh: &Mesh<S>, output_counter_max: usize) -> Result<Self> {
+    pub fn clear_out_folder(outputconfig: &OutputConfig) -> Result<()> {
         if let StreamMode::File = outputconfig.stream_mode {
             if outputconfig.should_clear_out_folder && Path::new(&outputconfig.folder_name).is_dir() {
                 remove_dir_all(&outputconfig.folder_name)
                     .wrap_err_with(|| format!("Failed to remove directory {}", outputconfig.folder_name))?;
             }
+        }
+        Ok(())
+    }
+
+    /// Builds a new `color_eyre::Result<Output>` object.
+    ///
+    /// # Arguments
+    ///
+    /// * `outputconf` - `OutputConfig` containing configuration to build `Output` objects
+    /// * `mesh` - provides information about the mesh in this simulation
+    /// * `output_counter_max` - How many distinct outputs should be written during this run
+    pub fn new<const S: usize>(outputconfig: &OutputConfig, mesh: &Mesh<S>, output_counter_max: usize) -> Result<Self> {
+        if let StreamMode::File = outputconfig.stream_mode {
             if !Path::new(&outputconfig.folder_name).is_dir() {
                 create_dir_all(&outputconfig.folder_name)
                     .wrap_err_with(|| format!("Failed to create directory {}", outputconfig.folder_name))?;
-- 
2.43.0


From 3c120ee87a0e22852bf72730a0b97ef3e28ddff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:20 +0000
Subject: [PATCH 12/19] fix: Kt ignored NaN wave speeds coming from the west
 side of a cell

---
 src/rhs/numflux/kt.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index 1e180f3..6ef55e0 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -14,9 +14,10 @@ use color_eyre::{
 };
 use ndarray::{par_azip, s, Array1, Array2};
 
+// Both macros return NaN if either argument is NaN
 macro_rules! min {
     ($a:expr, $b:expr) => {
-        if $a < $b {
+        if $a < $b || f64::is_nan($a) {
             $a
         } else {
             $b
@@ -25,7 +26,7 @@ macro_rules! min {
 }
 macro_rules! max {
     ($a:expr, $b:expr) => {
-        if $a > $b {
+        if $a > $b || f64::is_nan($a) {
             $a
         } else {
             $b
-- 
2.43.0


From d7e7a12677d91c73baaeef9683d2dc99180fac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 13/19] fix: do not add an epsilon to the cell volume before
 dividing by it

The absolute epsilon changed the time derivative noticeably on meshes
with very small cells; deta_dphi_d_volume is documented as the plain
quotient.
---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0


From bf30be402ac6d52dce4fb87c381964ed1d2ab2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 14/19] fix: reject boundary conditions and outputs for
 equations that do not exist

---
 src/config.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 15f3420..87dfe54 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -5,7 +5,10 @@
 //! Exports the [CorriesConfig] structs and its nested structs for configuring Corries simulations.
 
 use crate::{components::*, errorhandling::Validation, initfuncs::InitFn, prelude::*};
-use color_eyre::{eyre::Context, Result};
+use color_eyre::{
+    eyre::{ensure, Context},
+    Result,
+};
 pub use meshconfig::*;
 pub use numericsconfig::*;
 pub use outputconfig::*;
@@ -210,6 +213,8 @@ impl CorriesConfig {
         T: TimeSolver<P, E, S>,
     {
         self.validate().context("Validating CorriesConfig")?;
+        self.validate_equation_indices::<E>()
+            .context("Validating the equation indices in CorriesConfig")?;
 
         let mesh = Mesh::<S>::new(&self.mesh_config).context("Constructing Mesh")?;
         let mut u = State::<P, E, S>::new(&self.physics_config);
@@ -235,6 +240,26 @@ impl CorriesConfig {
         u.init_west_east();
         Ok((u, solver, mesh, writer))
     }
+
+    /// Checks that boundary conditions and outputs only refer to equations that exist in the [Physics] with `E` equations
+    fn validate_equation_indices<const E: usize>(&self) -> Result<()> {
+        for mode in [&self.boundary_condition_west, &self.boundary_condition_east] {
+            if let BoundaryMode::Custom(v) = mode {
+                for (j, _) in v.iter() {
+                    ensure!(
+                        *j < E,
+                        "Custom boundary conditions refer to equation {j}, but there are only {E} equations!"
+                    );
+                }
+            }
+        }
+        for name in self.writer_config.iter().flat_map(|o| o.data_names.iter()) {
+            if let DataName::Prim(j) | DataName::Cons(j) = name {
+                ensure!(*j < E, "Cannot write {name:?}, there are only {E} equations!");
+            }
+        }
+        Ok(())
+    }
 }
 
 impl Validation for CorriesConfig {
-- 
2.43.0


From 07a50c26667ab68819760bacbf651e1bebf83552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 15/19] fix: reject output streams that have nothing to write

---
 src/config/outputconfig.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 8ac9bae..6fd0322 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -238,6 +238,10 @@ unsafe impl Sync for OutputConfig {}
 
 impl Validation for OutputConfig {
     fn validate(&self) -> color_eyre::Result<()> {
+        ensure!(
+            !self.data_names.is_empty(),
+            "data_names may not be empty, an Output needs something to write!"
+        );
         if self.stream_mode == StreamMode::File {
             ensure!(
                 !self.folder_name.is_empty(),
-- 
2.43.0


From b2a8a86857684c18a646ede1769085a3e17469ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:55 +0000
Subject: [PATCH 16/19] fix: return an error instead of panicking when stdout
 cannot be written to

---
 src/config.rs        | 24 ++++++++++++++++--------
 src/writer/output.rs |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 87dfe54..f2e5514 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -14,6 +14,7 @@ pub use numericsconfig::*;
 pub use outputconfig::*;
 pub use physicsconfig::*;
 use serde::Serialize;
+use std::io::Write;
 
 pub mod meshconfig;
 pub mod numericsconfig;
@@ -222,14 +223,7 @@ impl CorriesConfig {
         let mut writer = Writer::new::<S>(self, &mesh).context("Constructing Writer")?;
 
         if writer.print_banner {
-            println!("# ****************************************");
-            println!("# Corries - corrosive Riemann solver ");
-            println!("# ");
-            println!("# Version: {}", env!("CARGO_PKG_VERSION"));
-            println!("# Copyright (c) 2022-2023");
-            println!("# Author: tbreslein <github.com/tbreslein>");
-            println!("# License: MIT");
-            println!("# ****************************************");
+            print_banner().context("Printing the banner in CorriesConfig::init_corries")?;
         }
         writer
             .write_metadata::<S>()
@@ -262,6 +256,20 @@ impl CorriesConfig {
     }
 }
 
+/// Prints the banner to stdout
+fn print_banner() -> Result<()> {
+    let mut stdout = std::io::stdout().lock();
+    writeln!(stdout, "# ****************************************")?;
+    writeln!(stdout, "# Corries - corrosive Riemann solver ")?;
+    writeln!(stdout, "# ")?;
+    writeln!(stdout, "# Version: {}", env!("CARGO_PKG_VERSION"))?;
+    writeln!(stdout, "# Copyright (c) 2022-2023")?;
+    writeln!(stdout, "# Author: tbreslein <github.com/tbreslein>")?;
+    writeln!(stdout, "# License: MIT")?;
+    writeln!(stdout, "# ****************************************")?;
+    Ok(())
+}
+
 impl Validation for CorriesConfig {
     fn validate(&self) -> Result<()> {
         self.mesh_config.validate().context("Validating config.meshconfig")?;
diff --git a/src/writer/output.rs b/src/writer/output.rs
index 0459446..56fb402 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -277,7 +277,7 @@ impl Output {
         if self.should_print_metadata {
             match self.stream_mode {
                 StreamMode::Stdout => {
-                    println!("{meta_data}");
+                    writeln!(std::io::stdout().lock(), "{meta_data}").wrap_err("Failed to write to stdout!")?;
                 },
                 StreamMode::File => {
                     let full_path_string = self.file_name.clone() + "_metadata.json";
-- 
2.43.0


From b94f0e8f6d6affc30799f7b99ee95955dce75a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:54 +0000
Subject: [PATCH 17/19] fix: write every output stream even if one of them
 fails

With try_for_each, which of the other streams still got their record after one
had failed depended on how the threads were scheduled.
---
 src/writer.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 5e1b89d..35dbb4a 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -100,19 +100,31 @@ impl Writer {
     }
 
     /// Writes to all defined output streams
+    ///
+    /// If some of the streams fail, the others are written nonetheless, and the error of the first failing stream is
+    /// returned; which streams have been written does not depend on how the threads are scheduled.
     pub fn write_output(&mut self) -> Result<()> {
-        self.outputs
+        let results: Vec<Result<()>> = self
+            .outputs
             .par_iter_mut()
-            .try_for_each(|output| output.write_output(self.output_counter))?;
+            .map(|output| output.write_output(self.output_counter))
+            .collect();
+        results.into_iter().collect::<Result<()>>()?;
         self.output_counter += 1;
         Ok(())
     }
 
     /// Writes metadata to all output streams
+    ///
+    /// If some of the streams fail, the others are written nonetheless, and the error of the first failing stream is
+    /// returned.
     pub fn write_metadata<const S: usize>(&mut self) -> Result<()> {
-        self.outputs
+        let results: Vec<Result<()>> = self
+            .outputs
             .par_iter_mut()
-            .try_for_each(|output| output.write_metadata::<S>(&self.meta_data))
+            .map(|output| output.write_metadata::<S>(&self.meta_data))
+            .collect();
+        results.into_iter().collect()
     }
 }
 
-- 
2.43.0


From 37d1574b4db142ca5b9e6acde546e47d9e8c4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:56 +0000
Subject: [PATCH 18/19] fix: return an error instead of panicking when the step
 control warning cannot be written

---
 src/time/rkf.rs                |  2 +-
 src/time/rkf/butchertableau.rs | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 40e1197..dce3659 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -72,7 +72,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
         let (bt, asc_relative_tolerance, asc_absolute_tolerance, asc_timestep_friction) =
             match &config.numerics_config.time_integration_config {
                 TimeIntegrationConfig::Rkf(rkf_config) => (
-                    ButcherTableau::new(rkf_config),
+                    ButcherTableau::new(rkf_config)?,
                     rkf_config.asc_relative_tolerance,
                     rkf_config.asc_absolute_tolerance,
                     rkf_config.asc_timestep_friction,
diff --git a/src/time/rkf/butchertableau.rs b/src/time/rkf/butchertableau.rs
index 38a13a0..151b3b9 100644
--- a/src/time/rkf/butchertableau.rs
+++ b/src/time/rkf/butchertableau.rs
@@ -5,7 +5,9 @@
 //! Exports the [ButcherTableau] struct
 
 use crate::config::numericsconfig::{RKFMode, RkfConfig};
+use color_eyre::Result;
 use ndarray::{Array1, Array2};
+use std::io::Write;
 
 /// Carries the butcher tableau needed for implement different Runge-Kutta-Fehlberg methods.
 ///
@@ -43,10 +45,10 @@ impl ButcherTableau {
     /// # Argument
     ///
     /// * `rkfconfig` - [RungeKuttaFehlberg](crate::time::rkf::RungeKuttaFehlberg) specific configuration
-    pub fn new(rkfconfig: &RkfConfig) -> Self {
+    pub fn new(rkfconfig: &RkfConfig) -> Result<Self> {
         let order = get_order(rkfconfig.rkf_mode);
         let asc = rkfconfig.asc;
-        match rkfconfig.rkf_mode {
+        Ok(match rkfconfig.rkf_mode {
             RKFMode::RK1 => Self {
                 order,
                 a: Array2::from_shape_vec(
@@ -66,7 +68,7 @@ impl ButcherTableau {
                     vec![0.0]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    writeln!(std::io::stdout().lock(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode)?;
                     false
                 } else {
                     asc
@@ -92,7 +94,7 @@ impl ButcherTableau {
                     vec![0.0, 0.5]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    writeln!(std::io::stdout().lock(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode)?;
                     false
                 } else {
                     asc
@@ -142,7 +144,7 @@ impl ButcherTableau {
                     vec![0.0, 0.5, 0.5, 1.0]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    writeln!(std::io::stdout().lock(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode)?;
                     false
                 } else {
                     asc
@@ -263,7 +265,7 @@ impl ButcherTableau {
                 ).unwrap(),
                 asc
             },
-        }
+        })
     }
 
 }
-- 
2.43.0


From c6566186d1594ffbf4c2aee1263ca763affb20a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:56 +0000
Subject: [PATCH 19/19] fix: do not panic for outputs with more than 65535
 digits

---
 src/writer/output.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index 56fb402..a67136a 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -101,6 +101,8 @@ impl Output {
         } else {
             mesh.ixi_in
         };
+        // the formatter panics for larger precisions; the digits that go missing are all zeros
+        let precision = outputconfig.precision.min(u16::MAX as usize);
         Ok(Self {
             data: outputconfig
                 .data_names
@@ -146,9 +148,9 @@ impl Output {
             mesh_offset,
             output_counter_width: f64::log10(output_counter_max as f64) as usize + 1,
             should_print_metadata: outputconfig.should_print_metadata,
-            precision: outputconfig.precision,
+            precision,
             width: match outputconfig.formatting_mode {
-                FormattingMode::TSV => 12usize.min(outputconfig.precision + 7),
+                FormattingMode::TSV => 12usize.min(precision + 7),
                 FormattingMode::CSV => 0,
             },
             delimiter: match outputconfig.formatting_mode {
-- 
2.43.0

