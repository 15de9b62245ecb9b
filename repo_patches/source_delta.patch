From ebece6f4ba6555a72c7f6d13c48e757a7b3ebe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:30 +0000
Subject: [PATCH 01/60] fix: compute spins before the position-spin scalar
 products that use them

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..376fdd2 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -426,8 +426,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations); // It uses the spin, thus it needs to be already up to date
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From d2f7245e93d3ca43376ea20c8c5774f47fb156fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 02/60] fix: evaluate the effects before the first historic
 snapshot so tidal heating is defined (was NaN)

---
 src/integrator/ias15.rs    | 6 ++++++
 src/integrator/leapfrog.rs | 6 ++++++
 src/integrator/whfast.rs   | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..2b7b421 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -414,6 +414,12 @@ impl Integrator for Ias15 {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Evaluate the effects once, so that quantities derived from them (e.g., tidal heating) are
+        // already defined when the first historic snapshot is written
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
 
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..7af634e 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -146,6 +146,12 @@ impl Integrator for LeapFrog {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Evaluate the effects once, so that quantities derived from them (e.g., tidal heating) are
+        // already defined when the first historic snapshot is written
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..f3ec217 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -230,6 +230,12 @@ impl Integrator for WHFast {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Evaluate the effects once, so that quantities derived from them (e.g., tidal heating) are
+        // already defined when the first historic snapshot is written
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
-- 
2.43.0


From 41b124bf91ed3e9b627615cadd18471bb7107162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:03 +0000
Subject: [PATCH 03/60] fix: evolution tables keep an absolute left index so
 earlier times interpolate correctly

---
 src/effects/evolution.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..ecb21bd 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -446,41 +446,47 @@ impl Evolver {
     // OPTIMIZATION: Skip first N elements which belong to the past
     // but still go through the last n elements just in case the integrator
     // is travelling to the past (e.g., current time step did not converge)
-    fn idx(&self) -> usize {
+    fn idx(&self, current_time: f64) -> usize {
         let security_shift = 10;
-        if self.left_index > security_shift {
+        if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {
             return self.left_index - security_shift;
         } else {
             return 0;
         }
     }
 
+    fn interpolate(&self, current_time: f64, values: &[f64]) -> (f64, usize) {
+        let idx = self.idx(current_time);
+        let (new_value, left_index) = linear_interpolation(current_time, &self.time[idx..], &values[idx..]);
+        return (new_value, idx + left_index);
+    }
+
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
         let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+            EvolutionType::NonEvolving => { (current_radius, self.left_index) },
+            _ => { self.interpolate(current_time, &self.radius) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+            EvolutionType::Baraffe2015(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            EvolutionType::Leconte2011(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, &self.radius_of_gyration_2) },
+            _ => { (current_radius_of_gyration_2, self.left_index) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
         let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+            EvolutionType::LeconteChabrier2013(_) => { self.interpolate(current_time, &self.love_number) },
+            _ => { (current_love_number, self.left_index) }
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_love_number;
     }
 
@@ -504,11 +510,11 @@ impl Evolver {
         // included in future versions of this code.
         let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                self.interpolate(current_time, &self.inverse_tidal_q_factor)
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => (current_inverse_tidal_q_factor, self.left_index),
         };
-        self.left_index += left_index;
+        self.left_index = left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From 0f15ac603ede7d46fbcab2ef52160b500b055d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 04/60] fix: write recovery snapshots apart and move them into
 place when complete

---
 src/integrator/output.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..5e37b6c 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -32,6 +32,23 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
     //
     // The buffer will be written out when the writer is dropped.
 
+    // 1.- Serialize the integrator to be able to resume if the simulation is interrupted
+    // It is written apart and moved to its final place once it is complete, so that an interruption
+    // half-way never leaves a partial recovery snapshot
+    let temporary_path = snapshot_path.with_extension("tmp");
+    {
+        let mut writer = BufWriter::new(File::create(&temporary_path).unwrap());
+
+        if snapshot_path.extension().unwrap() == "json" {
+            let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
+            writer.write_all(json_encoded.as_bytes()).unwrap();
+        } else {
+            // Binary
+            bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
+        }
+        writer.flush().unwrap();
+    }
+
     if snapshot_path.exists() {
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
@@ -39,18 +56,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap());
         fs::rename(snapshot_path, snapshot_path.with_extension(new_extension)).unwrap();
     }
-
-    // 1.- Serialize the integrator to be able to resume if the simulation is interrupted
-    let mut writer = BufWriter::new(File::create(&snapshot_path).unwrap());
-
-    if snapshot_path.extension().unwrap() == "json" {
-        let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
-    } else {
-        // Binary
-        bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
-    }
-
+    fs::rename(&temporary_path, snapshot_path).unwrap();
 }
 
 
-- 
2.43.0


From e1ba02b4c51f086944fe8484d700b0826900b07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 05/60] fix: refuse binary snapshots with unread data instead
 of taking them for another integrator

---
 src/integrator/output.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 5e37b6c..d52be1e 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -2,7 +2,7 @@ extern crate time;
 use std::fs::File;
 use std::fs::{OpenOptions};
 use std::io::{Write, BufWriter};
-use std::io::{Read, BufReader};
+use std::io::{Read, BufRead, BufReader};
 use super::super::Integrator;
 use super::super::particles::Universe;
 use super::super::particles::Reference;
@@ -11,6 +11,7 @@ use super::super::tools::calculate_keplerian_orbital_elements;
 use bincode;
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
+use serde::de::DeserializeOwned;
 use serde_json;
 use std::path::Path;
 use std::fs;
@@ -246,31 +247,35 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
     }
 }
 
-fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
+fn deserialize_bin<T: DeserializeOwned>(snapshot_path: &Path) -> Result<T, String> {
     // Open the path in read-only mode, returns `io::Result<File>`
     let snapshot_file = File::open(&snapshot_path).unwrap();
     let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let universe_integrator = bincode::deserialize_from(&mut reader).map_err(|why| why.to_string())?;
+    // All the content must have been consumed, or else it is not a snapshot of this integrator
+    match reader.fill_buf() {
+        Ok(remaining) if remaining.is_empty() => Ok(universe_integrator),
+        Ok(_) => Err(format!("Unexpected extra data")),
+        Err(why) => Err(why.to_string()),
+    }
+}
+
+fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
+    let wrapped_universe_integrator: Result<WHFast, String> = deserialize_bin(&snapshot_path);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
             Ok(Box::new(universe_integrator))
         },
         Err(_) => {
-            // Re-open file because the previous File/BufReader was already consumed
-            let snapshot_file = File::open(&snapshot_path).unwrap();
-            let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, String> = deserialize_bin(&snapshot_path);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
                     Ok(Box::new(universe_integrator))
                 },
                 Err(_) => {
-                    // Re-open file because the previous File/BufReader was already consumed
-                    let snapshot_file = File::open(&snapshot_path).unwrap();
-                    let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, String> = deserialize_bin(&snapshot_path);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From 8dd5235b2f793f6c4fc0b2a580676dbbb4673b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:21 +0000
Subject: [PATCH 06/60] fix: heliocentric speed no longer subtracts a stale
 host velocity (wrong first evaluation when the host is given moving)

---
 src/particles/universe.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 376fdd2..f3cee2c 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -332,9 +332,10 @@ impl Universe {
                                                                         particle.heliocentric_position.y*particle.heliocentric_velocity.y +
                                                                         particle.heliocentric_position.z*particle.heliocentric_velocity.z) 
                                                                         / particle.heliocentric_distance;
-                particle.heliocentric_norm_velocity_vector_2 = (particle.heliocentric_velocity.x - host_particle.heliocentric_velocity.x).powi(2) 
-                                                                + (particle.heliocentric_velocity.y - host_particle.heliocentric_velocity.y).powi(2)
-                                                                + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
+                // The velocity is already relative to the host
+                particle.heliocentric_norm_velocity_vector_2 = particle.heliocentric_velocity.x.powi(2) 
+                                                                + particle.heliocentric_velocity.y.powi(2)
+                                                                + particle.heliocentric_velocity.z.powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
             host_particle.heliocentric_position.x = 0.;
-- 
2.43.0


From 6db7b2f5a5bf970e5c04d630d9f2f30b845b2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:21 +0000
Subject: [PATCH 07/60] fix: bodies without tides no longer act on the tidal
 host (NaN torque)

---
 src/effects/tides/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..f6d0806 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,7 +241,8 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
-        if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
+        // Bodies without tides do not raise any on the host
+        if let (TidesEffect::CentralBody(tidal_model), TidesEffect::OrbitingBody(_)) = (&tidal_host_particle.tides.effect, &particle.tides.effect) {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
                 TidalModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +354,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
+                continue; // Bodies without tides do not raise any on the host
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From 664253d2d98c2bf968091184123c1740ef5edcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:36 +0000
Subject: [PATCH 08/60] fix: rotational flattening of a body without rotation
 is zero instead of NaN

---
 src/effects/rotational_flattening/oblate_spheroid.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..c7b5f38 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -36,25 +36,25 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -1. * particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.radius.powi(5) * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / particle.rotational_flattening.parameters.internal.distance.powi(5); // 6*factor/spin^2 written out so that it is also defined for a body without rotation
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -1. * rotational_flattening_host_particle.mass * params.love_number * particle.radius.powi(5) * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / particle.rotational_flattening.parameters.internal.distance.powi(5);
                 }
             }
         }
     }
 }
 
-pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
+pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(_rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                - 2.5/particle.rotational_flattening.parameters.internal.distance.powi(2) * (particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin
+                    + particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From 8d971c26beee6b1655dadad34d0ac207d6034ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 09/60] fix: leaving the dynamical-tide regime drops the
 planet's own entry, not the host's

---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..370786c 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From c9fd16b69af2a940156d55e42341fa18b82e4470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 10/60] fix: second-order post-Newtonian terms carry 1/c^4
 (Kidder 1995, eq. 2.2d)

---
 src/effects/general_relativity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..38a0311 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -253,7 +253,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
             let general_relativity_factor_2 = particle.general_relativity.parameters.internal.factor.powi(2);
 
             // Radial part of the GR force (Kidder 1995, equation 2.2d)
-            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let radial_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (3.0/4.0*(12.0+29.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g.powi(2)/distance_2)
                     + particle.general_relativity.parameters.internal.factor*(3.0-4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_4
                     + 15.0/8.0*particle.general_relativity.parameters.internal.factor*(1.0-3.0*particle.general_relativity.parameters.internal.factor)*radial_velocity_4
@@ -261,7 +261,7 @@ fn calculate_kidder1995_second_order_general_relativity_acceleration(host_partic
                     - 0.5*particle.general_relativity.parameters.internal.factor*(13.0-4.0*particle.general_relativity.parameters.internal.factor)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*norm_velocity_vector_2
                     - (2.0 + 25.0*particle.general_relativity.parameters.internal.factor+2.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)*radial_velocity_2);
 
-            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2)
+            let orthogonal_component_of_the_second_order_general_relativity_acceleration = -star_planet_mass_g / (distance_2 * SPEED_OF_LIGHT_2.powi(2))
                     * (-0.5)*particle.general_relativity.parameters.internal.radial_velocity
                     * (particle.general_relativity.parameters.internal.factor*(15.0+4.0*particle.general_relativity.parameters.internal.factor)*norm_velocity_vector_2 
                     - (4.0+41.0*particle.general_relativity.parameters.internal.factor+8.0*general_relativity_factor_2)*(star_planet_mass_g/particle.general_relativity.parameters.internal.distance)
-- 
2.43.0


From 207547d35c36e8ef158c16031c9bf2ac0de35362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:38 +0000
Subject: [PATCH 11/60] fix: relativistic spin-orbit coupling uses the scalar
 triple product and falls off as 1/r^3 (Kidder 1995, eqs. 2.2c and 2.4)

---
 src/effects/general_relativity.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 38a0311..01264b7 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -337,15 +337,17 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let mass_spin_factor_y = mass_factor*star_planet_mass*(particle_angular_momentum.y/particle.mass - star_angular_momentum.y/host_particle.mass);
             let mass_spin_factor_z = mass_factor*star_planet_mass*(particle_angular_momentum.z/particle.mass - star_angular_momentum.z/host_particle.mass);
 
-            let element1_x: f64 = 6.*particle_normalized_position.x
-                               * ((particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
-                               * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x));
-            let element1_y :f64 = 6.*particle_normalized_position.y
-                               * ((particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
-                               * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y));
-            let element1_z: f64 = 6.*particle_normalized_position.z
-                               * ((particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
-                               * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z));
+            // Scalar product of (n x v) with (2 S + delta_m/m Delta)
+            let scalar_product_of_n_cross_v_with_spins = 
+                (particle_normalized_position.y * particle.general_relativity.coordinates.velocity.z - particle_normalized_position.z * particle.general_relativity.coordinates.velocity.y)
+                    * (2.*(star_angular_momentum.x+particle_angular_momentum.x) + mass_spin_factor_x)
+                + (particle_normalized_position.z * particle.general_relativity.coordinates.velocity.x - particle_normalized_position.x * particle.general_relativity.coordinates.velocity.z)
+                    * (2.*(star_angular_momentum.y+particle_angular_momentum.y) + mass_spin_factor_y)
+                + (particle_normalized_position.x * particle.general_relativity.coordinates.velocity.y - particle_normalized_position.y * particle.general_relativity.coordinates.velocity.x)
+                    * (2.*(star_angular_momentum.z+particle_angular_momentum.z) + mass_spin_factor_z);
+            let element1_x: f64 = 6.*particle_normalized_position.x * scalar_product_of_n_cross_v_with_spins;
+            let element1_y: f64 = 6.*particle_normalized_position.y * scalar_product_of_n_cross_v_with_spins;
+            let element1_z: f64 = 6.*particle_normalized_position.z * scalar_product_of_n_cross_v_with_spins;
 
             let element7s = Axes{
                                     x:7.*(star_angular_momentum.x+particle_angular_momentum.x) + 3.*mass_spin_factor_x,
@@ -365,7 +367,7 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
             let element3_y: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.z * element3s.x - particle_normalized_position.x * element3s.z);
             let element3_z: f64 = 3.*particle.general_relativity.parameters.internal.radial_velocity * (particle_normalized_position.x * element3s.y - particle_normalized_position.y * element3s.x);
 
-            let factor_a = G / SPEED_OF_LIGHT_2;
+            let factor_a = G / (SPEED_OF_LIGHT_2 * particle.general_relativity.parameters.internal.distance.powi(3));
             let total_general_relativity_spin_orbit_acceleration_x = factor_a * (element1_x - element2_x + element3_x);
             let total_general_relativity_spin_orbit_acceleration_y = factor_a * (element1_y - element2_y + element3_y);
             let total_general_relativity_spin_orbit_acceleration_z = factor_a * (element1_z - element2_z + element3_z);
-- 
2.43.0


From cb02dff480df685fd7fdb1aec5b4ba2bd5e837e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:33 +0000
Subject: [PATCH 12/60] fix: Newtonian accelerations used by the Anderson and
 Newhall relativity corrections come from the current positions

---
 src/effects/general_relativity.rs | 64 ++++++++++++-------------------
 1 file changed, 25 insertions(+), 39 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 01264b7..bcfcc22 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -460,12 +460,12 @@ fn calculate_kidder1995_spin_orbit_general_relativity_acceleration_and_dangular_
 ////////////////////////////////////////////////////////////////////////////
 //--------------------------------------------------------------------------
 // [start] General Relativity based on REBOUNDx gr.c
-pub fn calculate_anderson1975_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) {
+pub fn calculate_anderson1975_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], _ignored_gravity_terms: IgnoreGravityTerms) {
     // Calculate Newtonian accelerations in the current setup and considering all particles
     let mut host_particle = host_particle;
     let mut particles = particles;
     let mut more_particles = more_particles;
-    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles, ignored_gravity_terms);
+    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles);
 
     // Transform to Jacobi coordinates
     let (jacobi_star_mass, _jacobi_star_position, _jacobi_star_velocity, _jacobi_star_acceleration, jacobi_particles_positions, jacobi_particles_velocities, mut jacobi_particles_accelerations) = anderson1975_general_relativity_inertial_to_jacobi_posvelacc(&host_particle, &particles, &more_particles, host_newtonian_inertial_accelerations, newtonian_inertial_accelerations);
@@ -640,49 +640,35 @@ fn anderson1975_general_relativity_jacobi_to_inertial_acc(particles: &mut [Parti
 //--------------------------------------------------------------------------
 ////////////////////////////////////////////////////////////////////////////
 
-fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) -> (Axes, [Axes; MAX_PARTICLES-1]) {
-    let mut host_newtonian_inertial_accelerations = Axes{x:0., y:0., z:0. };
-    let mut newtonian_inertial_accelerations = [Axes{x:0., y:0., z:0. }; MAX_PARTICLES-1]; 
-    host_newtonian_inertial_accelerations.x = host_particle.inertial_acceleration.x;
-    host_newtonian_inertial_accelerations.y = host_particle.inertial_acceleration.y;
-    host_newtonian_inertial_accelerations.z = host_particle.inertial_acceleration.z;
-    for (newtonian_acceleration, particle) in newtonian_inertial_accelerations.iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-        newtonian_acceleration.x = particle.inertial_acceleration.x;
-        newtonian_acceleration.y = particle.inertial_acceleration.y;
-        newtonian_acceleration.z = particle.inertial_acceleration.z;
-    }
-    // If some terms where ignored by the integrator, they should be added
-    if ignored_gravity_terms == IgnoreGravityTerms::WHFastOne || ignored_gravity_terms == IgnoreGravityTerms::WHFastTwo {
-        let n_particles;
-        if ignored_gravity_terms == IgnoreGravityTerms::WHFastOne {
-            n_particles = 2 - 1; // Only host - next particle interaction, and the host is already out of the particles vector
-        } else {
-            n_particles = particles.len() + more_particles.len();
-        }
-        for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
-            let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
-            let r = r2.sqrt();
-            let prefac = G/(r2*r);
-            let prefac_mass_star = prefac*host_particle.mass;
-            let prefac_mass_particle = prefac*particle.mass;
-            host_newtonian_inertial_accelerations.x -= prefac_mass_particle*dx;
-            host_newtonian_inertial_accelerations.y -= prefac_mass_particle*dy;
-            host_newtonian_inertial_accelerations.z -= prefac_mass_particle*dz;
-            newtonian_acceleration.x += prefac_mass_star*dx;
-            newtonian_acceleration.y += prefac_mass_star*dy;
-            newtonian_acceleration.z += prefac_mass_star*dz;
+fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) -> (Axes, [Axes; MAX_PARTICLES-1]) {
+    // All the pairs are computed here from the current positions: particle.inertial_acceleration cannot
+    // be used because it may correspond to a previous state and its terms depend on the integrator
+    let mut newtonian_inertial_accelerations = [Axes{x:0., y:0., z:0. }; MAX_PARTICLES];
+    for (i, (particle_i, newtonian_acceleration)) in iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter())
+                                                        .zip(newtonian_inertial_accelerations.iter_mut()).enumerate() {
+        for (j, particle_j) in iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter()).enumerate() {
+            if i != j {
+                let dx = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                let dy = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                let dz = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
+                let r = r2.sqrt();
+                let prefac = -G/(r2*r) * particle_j.mass;
+                newtonian_acceleration.x += prefac*dx;
+                newtonian_acceleration.y += prefac*dy;
+                newtonian_acceleration.z += prefac*dz;
+            }
         }
     }
-    return (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations);
+    let mut particles_newtonian_inertial_accelerations = [Axes{x:0., y:0., z:0. }; MAX_PARTICLES-1];
+    particles_newtonian_inertial_accelerations.copy_from_slice(&newtonian_inertial_accelerations[1..]);
+    return (newtonian_inertial_accelerations[0], particles_newtonian_inertial_accelerations);
 }
 
 ////////////////////////////////////////////////////////////////////////////
 //--------------------------------------------------------------------------
 // [start] General Relativity FULL based on REBOUNDx gr.c
-pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], ignored_gravity_terms: IgnoreGravityTerms) {
+pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], _ignored_gravity_terms: IgnoreGravityTerms) {
     // host_particle is separated from particles for homogeneity with the rest of methods,
     // but this implementation of General Relativity does not uses a host, all
     // interactions between all the bodies are computed
@@ -698,7 +684,7 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
     let mut host_particle = host_particle;
     let mut particles = particles;
     let mut more_particles = more_particles;
-    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles, ignored_gravity_terms);
+    let (host_newtonian_inertial_accelerations, newtonian_inertial_accelerations) = get_anderson1975_newhall1983_newtonian_inertial_accelerations(&mut host_particle, &mut particles, &mut more_particles);
 
     for (i, ((particle_i, drs_i), rs_i)) in 
                                     iter::once(&*host_particle).chain(particles.iter()).chain(more_particles.iter()) // zip will pick the lowest common number of elements
-- 
2.43.0


From 97331458c2e2b429a2d351a8459b1c538a01f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 13/60] fix: Newhall relativity needs the distances between all
 bodies (NaN with two bodies left out of relativity)

---
 src/effects/general_relativity.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index bcfcc22..cb0fa02 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -696,13 +696,12 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // All the distances are needed: bodies with general relativity disabled are also sources
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From 4b81bb2b2efa5eecfff23c0afca67e1771918108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:52 +0000
Subject: [PATCH 14/60] fix: bodies listed before the most massive one are also
 checked for ejection

---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index f3cee2c..676c771 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,10 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        let ejected = if i == self.hosts.index.most_massive { j } else { i };
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 07a6f4aa1813100da1c7360add7f0d940d947f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:15 +0000
Subject: [PATCH 15/60] fix: bodies without rotational flattening exert no
 flattening torque on the host (NaN with creep)

---
 src/effects/rotational_flattening/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..78dbba1 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,7 +183,7 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
-        if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
+        if let (RotationalFlatteningEffect::CentralBody(rotational_flattening_model), RotationalFlatteningEffect::OrbitingBody(_)) = (rotational_flattening_host_particle.rotational_flattening.effect, particle.rotational_flattening.effect) {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
                 RotationalFlatteningModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
-- 
2.43.0


From 6bf5f01ee7f203a1993eebf547e7a99e684c7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:30 +0000
Subject: [PATCH 16/60] fix: creep flattening uses its own coordinates and
 viscosity (NaN when tides are disabled)

---
 src/effects/tides/creep_coplanar.rs | 47 +++++++++++++++--------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index c542655..6545511 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -7,6 +7,7 @@ use super::super::super::{Particle};
 use super::super::super::{Axes};
 use super::common::TidesEffect;
 use super::common::TidalModel;
+use super::super::rotational_flattening::{RotationalFlatteningEffect, RotationalFlatteningModel};
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct CreepCoplanarParameters {
@@ -149,6 +150,12 @@ pub fn calculate_creep_coplanar_shapes(tidal_host_particle: &mut Particle, parti
 
 pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle: &Particle, consider_tides: bool, consider_rotational_flattening: bool, central_body: bool) -> Axes {
     let gm = tidal_host_particle.mass_g + particle.mass_g;
+    // The rotational flattening has its own coordinates and viscosity (tides may be disabled or not affect this body)
+    let (position, velocity) = if consider_tides {
+        (particle.tides.coordinates.position, particle.tides.coordinates.velocity)
+    } else {
+        (particle.rotational_flattening.coordinates.position, particle.rotational_flattening.coordinates.velocity)
+    };
     let (
         semimajor_axis,
         _perihelion_distance,
@@ -160,8 +167,8 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
         orbital_period,
     ) = tools::calculate_keplerian_orbital_elements(
         gm,
-        particle.tides.coordinates.position,
-        particle.tides.coordinates.velocity,
+        position,
+        velocity,
     );
     //let true_anomaly = calculate_true_anomaly(eccentricity, mean_anomaly);
 
@@ -169,16 +176,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
 
     let shape = match central_body {
         false => {
-            let particle_uniform_viscosity_coefficient = match &particle.tides.effect {
-                TidesEffect::OrbitingBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -194,16 +192,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
             )
         },
         true => {
-            let tidal_host_particle_uniform_viscosity_coefficient = match &tidal_host_particle.tides.effect {
-                TidesEffect::CentralBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let tidal_host_particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(tidal_host_particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -222,6 +211,20 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
     shape
 }
 
+fn get_uniform_viscosity_coefficient(particle: &Particle, consider_tides: bool) -> f64 {
+    if consider_tides {
+        match &particle.tides.effect {
+            TidesEffect::CentralBody(TidalModel::CreepCoplanar(params)) | TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    } else {
+        match &particle.rotational_flattening.effect {
+            RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::CreepCoplanar(params)) | RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    }
+}
+
 pub fn calculate_particle_shape(
     semimajor_axis: f64,
     eccentricity: f64,
-- 
2.43.0


From 7de93f777d1c54009a66540155def443b88dedfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 17/60] fix: Kaula Love number look-ups stay within the
 tabulated points instead of the zero padding

---
 src/effects/tides/kaula.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..f66d8a0 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1028,17 +1028,26 @@ fn calculate_kaula_numbers(mut wk2: f64, kaula_param: &KaulaParameters, central_
     // assert!(wk2 >love_number_excitation_frequency[0]);
     // assert!(wk2 < love_number_excitation_frequency[love_number_excitation_frequency.len() - 1]);
 
+    // Entries after the tabulated points are just padding, they are not part of the table
+    let mut n_datapoints = kaula_param.love_number_excitation_frequency.len();
+    if kaula_param.num_datapoints >= 1. && (kaula_param.num_datapoints as usize) < n_datapoints {
+        n_datapoints = kaula_param.num_datapoints as usize;
+    }
+    while n_datapoints > 1 && kaula_param.love_number_excitation_frequency[n_datapoints - 1] <= kaula_param.love_number_excitation_frequency[n_datapoints - 2] {
+        n_datapoints -= 1;
+    }
+
     if wk2 <= kaula_param.love_number_excitation_frequency[0] {
         // If wk2 is less than or equal to the first element, take the first value
         im_k2 = kaula_param.imaginary_part_love_number[0];
         re_k2 = kaula_param.real_part_love_number[0];
-    } else if wk2 >= kaula_param.love_number_excitation_frequency[kaula_param.love_number_excitation_frequency.len() - 1] {
+    } else if wk2 >= kaula_param.love_number_excitation_frequency[n_datapoints - 1] {
         // If wk2 is greater than or equal to the last element, take the last value
-        im_k2 = kaula_param.imaginary_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
-        re_k2 = kaula_param.real_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
+        im_k2 = kaula_param.imaginary_part_love_number[n_datapoints - 1];
+        re_k2 = kaula_param.real_part_love_number[n_datapoints - 1];
     } else {
         // Find the index of the closest match to use for the interpolation
-        match kaula_param.love_number_excitation_frequency.binary_search_by(|val| val.total_cmp(&wk2))
+        match kaula_param.love_number_excitation_frequency[..n_datapoints].binary_search_by(|val| val.total_cmp(&wk2))
         {
             Ok(i) => {
                 // Exact match found: love_number[i] == wk2
-- 
2.43.0


From 996b4961ca749183ae5ac0bf94bfbb53252d2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 18/60] fix: Kaula radial force of a circular orbit uses the
 real part of the Love number (limit of the eccentric expression)

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index f66d8a0..368e422 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -186,8 +186,8 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2010 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(0., 1., 0., spin, orbital_frequency);
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
-            let (_rek2_2200, imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * imk2_2200);
+            let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
+            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
-- 
2.43.0


From b99e02e6449ac6db6a33aaefd0c8a29492e1165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 19/60] fix: Kaula orthogonal force of the tide raised on the
 host scales with the mass of the perturber and the radius of the host (as the
 radial one)

---
 src/effects/tides/kaula.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 368e422..55515c1 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -671,7 +671,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
-        cste_2d = -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
+        cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The stellar/planetary spin in [rad.s^-1]
 
-- 
2.43.0


From db5d7cd6e77b420991833c209f7828dc3d469a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 20/60] fix: Kaula tides use positions and velocities relative
 to the tidal host, which may not be the most massive body

---
 src/effects/tides/kaula.rs | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 55515c1..1f7888a 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -63,14 +63,14 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // !central_body ==> planetary tide ==> particle is the planet
     // central_body ==> stellar tide ==> tidal_host_particle is the planet
     if !central_body {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.heliocentric_position, particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity);
         radial_distance = particle.tides.parameters.internal.distance;
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = particle.tides.coordinates.position.z / radial_distance;
         cos_phi = particle.tides.coordinates.position.x / coplanar_distance;
         sin_phi = particle.tides.coordinates.position.y / coplanar_distance;
     } else {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity);
         radial_distance = tidal_host_particle.tides.parameters.internal.distance;
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = tidal_host_particle.tides.coordinates.position.z / radial_distance;
@@ -154,11 +154,11 @@ fn calculate_radial_component_of_the_tidal_force(
     let orbital_frequency: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     argument_perihelion = longitude_perihelion - longitude_of_ascending_node;
     orbital_frequency = TWO_PI / (orbital_period * DAY); // The orbital mean motion in [rad.s^-1]
@@ -251,12 +251,12 @@ fn calculate_radial_component_of_the_tidal_force(
         let particle_radius_5: f64;
 
         if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         } else {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
@@ -397,9 +397,9 @@ fn calculate_normal_component_of_the_tidal_force(
 
     let obliquity: f64;
     if !central_body {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
     let normal_force: f64;
@@ -416,12 +416,12 @@ fn calculate_normal_component_of_the_tidal_force(
         let particle_radius_5: f64;
 
         if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         } else {
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
             particle_radius_5 = tidal_host_particle.radius.powi(5);
         }
@@ -655,18 +655,18 @@ fn calculate_orthogonal_component_of_the_tidal_force(
     let cste_2d: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
         // spin = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2) + particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
         cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     } else {
-        // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
         // spin = tidal_host_particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
@@ -893,10 +893,10 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         let _term_m2_s: f64 = -(5_f64) / (48_f64 * 6_f64.sqrt()) * sum_over_p_s;
 
         let cste_3d = if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
             -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(7))
         } else {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
             -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(7))
         };
 
-- 
2.43.0


From c2aa1b870638d41a71a99daea3571db37aff3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 21/60] fix: Kaula torque on the host sums the tides raised by
 each planet instead of repeating the last one

---
 src/effects/tides/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index f6d0806..a95c33c 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -246,7 +246,11 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
                 TidalModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
-                TidalModel::Kaula(_) => kaula::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
+                TidalModel::Kaula(_) => {
+                    // The force raised on the host depends on the planet
+                    kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
+                    kaula::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body)
+                },
             };
             // Integration of the spin (total torque tides):
             dangular_momentum_dt.x += factor * torque_due_to_tides.x;
-- 
2.43.0


From b5735a386b7327f7455da165f9f73cc7e806d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 22/60] fix: a body without rotation has no obliquity (NaN
 Kaula forces)

---
 src/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index 6ac6c2c..75d393c 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -31,6 +31,10 @@ pub fn calculate_inclination_orbital_equatorial_plane(position: Axes, velocity:
     let hz_rel = hz / h;
     let h_rel = (hx_rel.powi(2) + hy_rel.powi(2) + hz_rel.powi(2)).sqrt();
 
+    if s == 0. || h == 0. {
+        return 0.; // There is no equatorial (or orbital) plane to be inclined
+    }
+
     let numerator = hx_rel * sx + hy_rel * sy + hz_rel * sz;
     let denominator = h_rel * s;
     //
-- 
2.43.0


From a432a8383f7c240c8a397d03ac17caaeac2358d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:51 +0000
Subject: [PATCH 23/60] fix: Kaula torque comes from the current state also
 when accelerations are not requested (leapfrog used stale forces)

---
 src/effects/tides/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index a95c33c..4d7cd0f 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -229,7 +229,11 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
                 TidalModel::CreepCoplanar(_) => creep_coplanar::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
-                TidalModel::Kaula(_) => kaula::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
+                TidalModel::Kaula(_) => {
+                    // Make sure the force corresponds to the current state (accelerations may not have been requested)
+                    kaula::calculate_tidal_force(tidal_host_particle, particle, central_body);
+                    kaula::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body)
+                },
             };
             // Integration of the spin (total torque tides):
             particle.tides.parameters.output.dangular_momentum_dt.x = factor * torque_due_to_tides.x;
-- 
2.43.0


From 4c4eafcea115502d7d0f3746ed0676d23bf4d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 24/60] fix: resume --time-limit is read with the type it was
 parsed with (panic)

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From 28e0795e160b990630c6f7545d1162d819af4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 25/60] fix: periodic recovery snapshots are also written with
 an execution time limit

---
 src/main.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..dbc7bfa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,14 +158,11 @@ fn main() {
     loop {
         match boxed_universe_integrator.iterate(&mut universe_history_writer, silent_mode) {
             Ok(recovery_snapshot_time_trigger) => {
-                if enabled_execution_time_limit {
-                    let elapsed = instant.elapsed();
-                    if elapsed >= execution_time_limit {
-                        // Save a universe snapshot so that we can resume later on
-                        boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-                        println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
-                        break;
-                    }
+                if enabled_execution_time_limit && instant.elapsed() >= execution_time_limit {
+                    // Save a universe snapshot so that we can resume later on
+                    boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
+                    println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
+                    break;
                 } else if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-- 
2.43.0


From dfd7536f92e8e8681aa70c9906d4429d30a60e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 26/60] fix: the previous JSON recovery snapshot keeps its
 extension, otherwise it cannot be restored

---
 src/integrator/output.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index d52be1e..5384231 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -54,7 +54,9 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
         // Backup (keep only 1 every 12 hours thanks to filename collision)
-        let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap());
+        // (same format extension, so that it can be recognized if it needs to be restored)
+        let format_extension = snapshot_path.extension().unwrap().to_string_lossy();
+        let new_extension = format!("{0}.{1}", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap(), format_extension);
         fs::rename(snapshot_path, snapshot_path.with_extension(new_extension)).unwrap();
     }
     fs::rename(&temporary_path, snapshot_path).unwrap();
-- 
2.43.0


From 4e6d50eee72821133f0925d5fe2d3b4ebe8385d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:58 +0000
Subject: [PATCH 27/60] fix: WHFast and IAS15 integrate the spin when wind is
 the only effect that changes it

---
 src/integrator/ias15.rs  | 6 ++++--
 src/integrator/whfast.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 2b7b421..1cb50ae 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -534,7 +534,8 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind
+                            || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1351,7 +1352,8 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind
+                            || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f3ec217..d154d34 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -278,7 +278,8 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind
+                            || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0


From bd77b15d17422ee97b833436d910b2d55484a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:39 +0000
Subject: [PATCH 28/60] fix: JSON snapshots of bodies inside the inner edge of
 the disk (infinite migration timescale) can be restored

---
 src/effects/disk.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/effects/disk.rs b/src/effects/disk.rs
index 117ab39..60cbd3f 100644
--- a/src/effects/disk.rs
+++ b/src/effects/disk.rs
@@ -1,4 +1,4 @@
-use serde::{Serialize, Deserialize};
+use serde::{Serialize, Deserialize, Deserializer};
 use super::super::constants::{BOLTZMANN_CONSTANT, MASS_HYDROGEN_ATOM};
 use super::super::{Particle};
 use super::super::{Axes};
@@ -19,9 +19,19 @@ pub struct DiskParticleInternalParameters {
     pub distance: f64,
     pub norm_velocity_vector: f64,
     pub norm_velocity_vector_2: f64,
+    #[serde(deserialize_with = "deserialize_timescale")]
     pub migration_timescale: f64,
 }
 
+// JSON cannot represent the infinite timescale of a body inside the inner edge of the disk (it is written as null)
+fn deserialize_timescale<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    if deserializer.is_human_readable() {
+        Ok(Option::<f64>::deserialize(deserializer)?.unwrap_or(std::f64::INFINITY))
+    } else {
+        f64::deserialize(deserializer)
+    }
+}
+
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct DiskParticleOutputParameters {
     pub acceleration: Axes,
-- 
2.43.0


From 4f76adc95f0a41ed7204224ae79de5dd5ebee0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:51 +0000
Subject: [PATCH 29/60] fix: relativistic torque on the spins is also computed
 when accelerations are not requested (leapfrog applied half of it)

---
 src/particles/universe.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 676c771..c416867 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -489,7 +489,9 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        // The torque due to spin-orbit coupling (Kidder1995) is computed together with the accelerations
+        if self.consider_effects.general_relativity && (accelerations
+            || (dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995)) {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From a9e398930f94fe97e9310ee00a6e09575383d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:40 +0000
Subject: [PATCH 30/60] fix: evolving Love number is applied to the body and
 not to a copy

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index ecb21bd..b77d91d 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -537,9 +537,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From f0be10a05a9d3bc9a4cdd2da639b13bad32e57e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:19 +0000
Subject: [PATCH 31/60] fix: inclination stays in [0, pi] whatever the node
 (otherwise the argument of perihelion and the orbit are mirrored)

---
 src/tools.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 75d393c..ddc099e 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -124,9 +124,6 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_i = (hz / h).clamp(-1.,1.);
     if cos_i.abs() < 1. {
         i = cos_i.acos();
-        if hy > 0. {
-            i = TWO_PI - i;
-        }
         //longitude_of_ascending_node = (hx / -hy).atan();
         longitude_of_ascending_node = hx.atan2(-hy);
         if longitude_of_ascending_node < 0. {
-- 
2.43.0


From 5101001e290bbb06e1dfc10fdcf03a7d73c0c5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:21 +0000
Subject: [PATCH 32/60] fix: mean anomaly of circular orbits covers the full
 turn

---
 src/tools.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index ddc099e..e0077d3 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -181,13 +181,13 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     // --- True anomaly
     let mut true_anomaly:f64;
-    let cos_f:f64;
     if eccentricity == 0. {
+        // Angle from the ascending node in the orbital plane
         let x_rot = x*longitude_of_ascending_node.cos() + y*longitude_of_ascending_node.sin();
-        cos_f = (x_rot / r).clamp(-1.,1.);
-        true_anomaly = cos_f.acos();
+        let y_rot = (-x*longitude_of_ascending_node.sin() + y*longitude_of_ascending_node.cos())*i.cos() + z*i.sin();
+        true_anomaly = y_rot.atan2(x_rot);
     } else {
-        cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
+        let cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
         true_anomaly = cos_f.acos();
         if rv < 0. {
             true_anomaly = TWO_PI - true_anomaly;
-- 
2.43.0


From 87189013f2c8b0f6ece587b1b0e7cb8e3cdca288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:23 +0000
Subject: [PATCH 33/60] fix: hyperbolic orbits keep their phase when converted
 to elements and back

---
 src/tools.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index e0077d3..855b973 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -200,7 +200,7 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     if eccentricity == 0. {
         mean_anomaly = true_anomaly;
     } else {
-        let mut cos_bige = ((1./eccentricity)*( 1. - (r / a) )).clamp(-1.,1.);
+        let mut cos_bige = (1./eccentricity)*( 1. - (r / a) );
 
         // Mean anomaly for ellipse
         if eccentricity < 1. {
@@ -226,11 +226,14 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     }
   
-    if mean_anomaly < 0. {
-        mean_anomaly = mean_anomaly + TWO_PI;
-    }
-    if mean_anomaly > TWO_PI {
-        mean_anomaly = modulus(mean_anomaly, TWO_PI);
+    // The mean anomaly of an open orbit is not periodic
+    if eccentricity < 1. {
+        if mean_anomaly < 0. {
+            mean_anomaly = mean_anomaly + TWO_PI;
+        }
+        if mean_anomaly > TWO_PI {
+            mean_anomaly = modulus(mean_anomaly, TWO_PI);
+        }
     }
 
     // Given relative coordinates and velocities (of the body 1 respect to body 2),
@@ -611,7 +614,7 @@ fn kepler_solution_for_a_hyperbola(e: f64, n: f64) -> f64 {
     //// TODO:
     if abn < 0.636*e -0.6 {
        let tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n);
-       orbel_fhybrid = tmp.1;
+       orbel_fhybrid = tmp.0;
     } else {
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n);
     }
-- 
2.43.0


From 3d1edf82b36e3e0e43b4415df9f126e89fd6e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:25 +0000
Subject: [PATCH 34/60] fix: Kepler equation is solved for negative mean
 anomalies

---
 src/tools.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 855b973..4932c37 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -431,11 +431,8 @@ fn kepler_solution_for_eccentrities_smaller_than_one(e: f64, oldl: f64) -> f64 {
     let piby2 = 0.5 * PI;
   
     // Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0. {
-       l = modulus(oldl, TWO_PI);
-    } else {
-       l = (modulus(oldl, TWO_PI)) + TWO_PI;
-    }
+    // (the modulus is never negative)
+    l = modulus(oldl, TWO_PI);
     let mut sign = 1.;
     if l > PI {
        l = TWO_PI - l;
-- 
2.43.0


From 529d96c0b8c899fc5514864238ad143f792eb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:31 +0000
Subject: [PATCH 35/60] fix: python conversion between elements and coordinates
 agrees with the simulator's for every node, inclination and open orbit

---
 posidonius/tools.py | 77 +++++++++++----------------------------------
 1 file changed, 18 insertions(+), 59 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d4800c..70c955a 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -311,36 +311,10 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     ###-------------------------------------------------------------------------
     ### True longitude
-    # Algorithm:
-    #if hy != 0.:
-        #to = -hx/hy
-        #temp = (1. - ci) * to
-        #tmp2 = to * to
-        #true_longitude = np.arctan2(y*(1.+tmp2*ci)-x*temp, (x*(tmp2+ci)-y*temp))
-    #else:
-        #true_longitude = np.arctan2(y*ci, x)
-
-    #if ci < 0.:
-        #true_longitude = true_longitude + PI
-    true_longitude = np.zeros(len(ci))
-    non_zero = hy != 0.
-    if np.any(non_zero):
-        to = -hx[non_zero]/hy[non_zero]
-        temp = (1. - ci[non_zero]) * to
-        tmp2 = to * to
-        true_longitude[non_zero] = np.arctan2(y[non_zero]*(1.+tmp2*ci[non_zero])-x[non_zero]*temp, (x[non_zero]*(tmp2+ci[non_zero])-y[non_zero]*temp))
-
-        zero = np.logical_not(non_zero)
-        if np.any(zero):
-            true_longitude[zero] = np.arctan2(y[zero]*ci[zero], x[zero])
-    # SBC: Added to Alex/Leon's updated code
-    if np.any(~non_zero):
-        true_longitude = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
-    # SBC
-
-    negative_ci = ci < 0.
-    if np.any(negative_ci):
-        true_longitude[negative_ci] += PI
+    # Node plus the angle from the node in the orbital plane
+    x_rot = x*np.cos(n) + y*np.sin(n)
+    y_rot = (-x*np.sin(n) + y*np.cos(n))*np.cos(i) + z*np.sin(i)
+    true_longitude = n + np.arctan2(y_rot, x_rot)
 
     ###-------------------------------------------------------------------------
     ### l: mean_anomaly
@@ -380,7 +354,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         ce[big_eccentricity] = (v2[big_eccentricity]*r[big_eccentricity] - gm[big_eccentricity]) / (eccentricity[big_eccentricity]*gm[big_eccentricity])
         ellipse = np.logical_and(big_eccentricity, eccentricity < 1.)
         if np.any(ellipse):
-            change_sign = np.logical_and(eccentricity, np.abs(ce) > 1.)
+            change_sign = np.logical_and(ellipse, np.abs(ce) > 1.)
             if np.any(change_sign):
                 ce[change_sign] = np.sign(ce[change_sign])
             bige = np.zeros(len(ce))
@@ -408,10 +382,12 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     #if l > TWO_PI:
         #l = modulus(l, TWO_PI)
-    negative_l = l < 0.
+    # The mean anomaly of an open orbit is not periodic
+    closed = eccentricity < 1.
+    negative_l = np.logical_and(closed, l < 0.)
     if np.any(negative_l):
         l[negative_l] += TWO_PI
-    bigger_than_two_pi = l > TWO_PI
+    bigger_than_two_pi = np.logical_and(closed, l > TWO_PI)
     if np.any(bigger_than_two_pi):
         l[bigger_than_two_pi] = modulus(l[bigger_than_two_pi], TWO_PI)
 
@@ -448,33 +424,18 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         if np.any(negative_rv):
             f[negative_rv] = TWO_PI - f[negative_rv]
         f = modulus((f+ TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = true_longitude[big_eccentricity] - f[big_eccentricity]
-        p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity])
-        p[big_eccentricity] = modulus((p[big_eccentricity] + TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity]) %(2.*np.pi)
 
     # SBC: Added to Alex/Leon's updated code
     if np.any(small_eccentricity):
         f[small_eccentricity] = l[small_eccentricity]
     #
 
-    non_zero_long_asc_node = n >=1e-8
-    arg_peri = np.zeros(len(eccentricity))
-    long_asc_node = np.zeros(len(eccentricity))
-    incl = np.zeros(len(eccentricity))
-    if np.any(non_zero_long_asc_node):
-        long_asc_node[non_zero_long_asc_node] = n[non_zero_long_asc_node]
-        incl[non_zero_long_asc_node] = i[non_zero_long_asc_node]
-        ex_rot = ex*np.cos(long_asc_node) +ey*np.sin(long_asc_node)
-        ey_rot = -ex*np.sin(long_asc_node) +ey*np.cos(long_asc_node)
-        ez_rot = ez
-        ex_rot_2 = ex_rot
-        ey_rot_2 = ey_rot*np.cos(incl) + ez_rot*np.sin(incl)
-        _ez_rot_2 = -ey_rot*np.sin(incl) + ez_rot*np.cos(incl)
-
-        arg_peri = np.arctan2(ey_rot_2,ex_rot_2)
-        p[non_zero_long_asc_node] = long_asc_node[non_zero_long_asc_node] + arg_peri[non_zero_long_asc_node]
-        p = modulus((p + TWO_PI + TWO_PI), TWO_PI)
+    # Argument of perihelion: direction of the perihelion from the node in the orbital plane
+    if np.any(big_eccentricity):
+        ex_rot = ex*np.cos(n) + ey*np.sin(n)
+        ey_rot = -ex*np.sin(n) + ey*np.cos(n)
+        arg_peri = np.arctan2(ey_rot*np.cos(i) + ez*np.sin(i), ex_rot)
+        p[big_eccentricity] = modulus(n[big_eccentricity] + arg_peri[big_eccentricity] + TWO_PI, TWO_PI)
 
     if len(a) == 1:
         return (a[0], q[0], eccentricity[0], i[0], p[0], n[0], l[0], f[0])
@@ -645,10 +606,8 @@ def kepler_solution_for_eccentrities_smaller_than_one(e, oldl):
     piby2 = 0.5 * PI
 
     # Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0.:
-       l = modulus(oldl, TWO_PI)
-    else:
-       l = (modulus(oldl, TWO_PI)) + TWO_PI
+    # (the modulus is never negative)
+    l = modulus(oldl, TWO_PI)
 
     sign = 1.
     if l > PI:
@@ -818,7 +777,7 @@ def kepler_solution_for_a_hyperbola(e, n):
 
     if abn < 0.636*e -0.6:
        tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n)
-       orbel_fhybrid = tmp[1]
+       orbel_fhybrid = tmp[0]
     else:
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n)
 
-- 
2.43.0


From 0fc1b147ba866e7ac82f1519ccbaab7a407021a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:32 +0000
Subject: [PATCH 36/60] fix: python coordinates of parabolic orbits (division
 by zero, square root)

---
 posidonius/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 70c955a..b2ed85e 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -545,8 +545,9 @@ def _calculate_cartesian_coordinates(gm, q, e, i0, p, n0, l):
     d22 = -z4 + z1*ci
     d23 = cg * si
 
-    # Semi-major axis
-    a = q / (1. - e)
+    # Semi-major axis (a parabola has none)
+    if e != 1.:
+        a = q / (1. - e)
 
     #se
     #ce
@@ -740,7 +741,7 @@ def kepler_solution_for_a_parabola(q0):
     if q < 1.0e-3:
        eccentric_anomaly = q*(1. - (q*q/3.)*(1. -q*q))
     else:
-       x = 0.5*(3.*q + (9.* np.power(q, 2) + 4.).sqrt())
+       x = 0.5*(3.*q + np.sqrt(9.* np.power(q, 2) + 4.))
        tmp = np.power(x, 1./3.)
        eccentric_anomaly = tmp - 1./tmp
 
-- 
2.43.0


From ec98f590ba145f136e093036c9febb877308cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:27 +0000
Subject: [PATCH 37/60] fix: python coordinates of hyperbolic orbits with a
 small mean anomaly

---
 posidonius/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index b2ed85e..3a39233 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -852,7 +852,7 @@ def kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e, capn0):
            dx = -f/fp
            orbel_flon = x + dx
            #   If we have converged here there's no point in going on
-           if dx.abs() < tiny:
+           if np.abs(dx) < tiny:
                 converge = True
                 break
 
-- 
2.43.0


From b87fbf822b7b769d34ee99dfddf3326fdb44c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:36 +0000
Subject: [PATCH 38/60] fix: a disk without extension is treated as no disk
 instead of failing at the first evaluation

---
 src/particles/universe.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index c416867..3e2490b 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -728,11 +728,14 @@ fn disable_unnecessary_effects(consider_effects: &mut ConsiderEffects, particles
                 found_central_body_general_relativity = true;
             }
         }
-        if let DiskEffect::CentralBody(_) = particle.disk.effect {
-            if found_central_body_disk {
-                panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+        if let DiskEffect::CentralBody(disk) = particle.disk.effect {
+            // A disk without extension is no disk
+            if disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0. {
+                if found_central_body_disk {
+                    panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+                }
+                found_central_body_disk = true;
             }
-            found_central_body_disk = true;
         }
         if WindEffect::Disabled != particle.wind.effect {
             found_wind = true;
-- 
2.43.0


From a282cb76d45be7561805ff03ea36c887b59ab306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:00 +0000
Subject: [PATCH 39/60] fix: the softening length of the Jacobi interaction
 step is squared before being added to a squared distance

---
 src/integrator/whfast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index d154d34..5c4da18 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -572,7 +572,7 @@ impl WHFast {
 
     fn jacobi_interaction_step(&mut self, _dt: f64){
         self.inertial_to_jacobi_acc();
-        let softening = 1e-12;
+        let softening: f64 = 1e-12;
         let (_, particles_right) = self.universe.particles[..self.universe.n_particles].split_at_mut(self.universe.hosts.index.most_massive);
         if let Some((star, _)) = particles_right.split_first_mut() {
             let m0 = star.mass;
@@ -585,7 +585,7 @@ impl WHFast {
                     particle_alternative_coordinates.velocity.y += _dt * particle_alternative_coordinates.acceleration.y;
                     particle_alternative_coordinates.velocity.z += _dt * particle_alternative_coordinates.acceleration.z;
                     if i > 0 { // The star is already out of the loop, ignore first planet too (it should be the closer to the star)
-                        let rj2i = 1./(particle_alternative_coordinates.position.x.powi(2) + particle_alternative_coordinates.position.y.powi(2) + particle_alternative_coordinates.position.z.powi(2) + softening);
+                        let rj2i = 1./(particle_alternative_coordinates.position.x.powi(2) + particle_alternative_coordinates.position.y.powi(2) + particle_alternative_coordinates.position.z.powi(2) + softening.powi(2));
                         let rji = rj2i.sqrt();
                         let rj3im = rji*rj2i*G*eta;
                         let prefac = _dt*rj3im;
-- 
2.43.0


From 51a70eebfff8aa0944283ddac3c8194ac00e1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:05 +0000
Subject: [PATCH 40/60] fix: Kaula eccentricity function G_202 has -115/6 as
 coefficient of the fourth power of the eccentricity

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 1f7888a..ca9e79f 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1248,7 +1248,7 @@ impl Polynomials {
         self.eccentricity_function_g_2pq[0][6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_2pq[0][7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_2pq[0][8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_2pq[0][10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_2pq[0][11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_2pq[0][12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1324,7 +1324,7 @@ impl Polynomials {
         self.eccentricity_function_g_20q[6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_20q[7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_20q[8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_20q[10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_20q[11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_20q[12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
-- 
2.43.0


From 6e2f1c96270b693e0dde2554658da71e7a990b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:05 +0000
Subject: [PATCH 41/60] fix: signs of two creep Cayley coefficients E_(0,0) and
 E_(0,1)

---
 src/effects/tides/creep_coplanar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 6545511..3e9b6c9 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -471,8 +471,8 @@ fn calculate_cayley_coefficients(e: f64) -> [[f64; 15]; 2] {
     cayley[0][3] = 77.0 / 16.0 * e4 + 129.0 / 160.0 * e6;
     cayley[0][4] = 53.0 / 16.0 * e3 + 393.0 / 256.0 * e5 + 24753.0 / 10240.0 * e7;
     cayley[0][5] = 9.0 / 4.0 * e2 + 7.0 / 4.0 * e4 + 141.0 / 64.0 * e6;
-    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 - 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
-    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 - 35.0 / 16.0 * e6;
+    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 + 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
+    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 + 35.0 / 16.0 * e6;
     cayley[0][8] = cayley[0][6];
     cayley[0][9] = cayley[0][5];
     cayley[0][10] = cayley[0][4];
-- 
2.43.0


From 4d0055483d7785845cebc4ce1887a15a1c95ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:05 +0000
Subject: [PATCH 42/60] fix: creep polar oblateness lags behind its equilibrium
 as the rest of the shape does

---
 src/effects/tides/creep_coplanar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 3e9b6c9..8d72575 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -421,7 +421,7 @@ pub fn calculate_particle_shape(
                     + (2.0 * primary_spin - (9.0 - dk) * mean_motion) * (equatorial_angles).cos());
              sum_epsilon_z += cayley[0][k]
                 / ((dk - 7.0).powi(2) * mean_motion.powi(2) + relaxation_factor.powi(2))
-                * ((dk - 7.0).powi(2) * mean_motion.powi(2) * (polar_angles).sin()
+                * (relaxation_factor * (dk - 7.0) * mean_motion * (polar_angles).sin()
                     + relaxation_factor.powi(2) * (polar_angles).cos());
             //sum_x_component_of_the_equatorial_prolateness += 0.0;
             //sum_y_component_of_the_equatorial_prolateness += 0.0;
-- 
2.43.0


From 6531068fd6fa2ff0bac3903e52bf0d7053246416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:50 +0000
Subject: [PATCH 43/60] fix: the temporary name of a recovery snapshot never
 coincides with the snapshot itself

---
 src/integrator/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 5384231..afc809f 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -36,7 +36,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
     // 1.- Serialize the integrator to be able to resume if the simulation is interrupted
     // It is written apart and moved to its final place once it is complete, so that an interruption
     // half-way never leaves a partial recovery snapshot
-    let temporary_path = snapshot_path.with_extension("tmp");
+    let temporary_path = snapshot_path.with_extension(format!("{0}.tmp", snapshot_path.extension().unwrap().to_string_lossy()));
     {
         let mut writer = BufWriter::new(File::create(&temporary_path).unwrap());
 
-- 
2.43.0


From 02fbc798beca9246981e79d57f1b672f3b3ed9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:50 +0000
Subject: [PATCH 44/60] fix: a run that cannot write its last historic
 snapshots does not end as if it had succeeded

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index dbc7bfa..6fc15c3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
 use time::{OffsetDateTime, format_description};
@@ -172,6 +173,9 @@ fn main() {
         };
     }
 
+    // Do not let a failure to write the last historic snapshots pass unnoticed
+    universe_history_writer.flush().unwrap();
+
     let duration = timer.elapsed(); // duration
     if !resume {
         println!("[INFO {} UTC] Execution time: {} seconds", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), duration.as_secs_f64());
-- 
2.43.0


From b6d9f33c46e4e2caa8f0d2fced2d7492ca770c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:45 +0000
Subject: [PATCH 45/60] fix: the same file cannot be both the recovery and the
 historic snapshot

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6fc15c3..7603939 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,7 +142,10 @@ fn main() {
                                 * (boxed_universe_integrator.get_n_particles() as u64);
     let universe_history_path = Path::new(&universe_history_filename);
 
-    if !resume && universe_integrator_snapshot_path.exists() {
+    if universe_integrator_snapshot_path == universe_history_path {
+        // One would be written over the other
+        panic!("[PANIC {} UTC] File '{}' cannot be both the recovery and the historic snapshot.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_history_filename);
+    } else if !resume && universe_integrator_snapshot_path.exists() {
         panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_integrator_snapshot_filename);
     } else if !resume && universe_history_path.exists() {
         panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_history_filename);
-- 
2.43.0


From e3b4a482fd5779ebf6b16e7d71c2491117f7338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 46/60] fix: Python resamples the radius of gyration of
 Leconte2011 as the simulator does

---
 posidonius/effects/evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index 3dababd..ad98c23 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -1,6 +1,6 @@
 import datetime
 import numpy as np
-from posidonius.tools import interpolate_b_spline
+from posidonius.tools import linear_interpolation
 from posidonius.constants import *
 
 class EvolutionType(object):
@@ -102,7 +102,7 @@ class Leconte2011(EvolutionType):
         radius = radius[lower_limit:upper_limit]
         resampled_radius_of_gyration_2 = []
         for current_time in time:
-            current_radius_of_gyration_2, ignore = interpolate_b_spline(aux_time, aux_radius_of_gyration_2, current_time)
+            current_radius_of_gyration_2 = linear_interpolation(current_time, aux_time, aux_radius_of_gyration_2)
             resampled_radius_of_gyration_2.append(current_radius_of_gyration_2)
         precision = 7
         resampled_radius_of_gyration_2 = np.around(resampled_radius_of_gyration_2, precision).tolist()
-- 
2.43.0


From d9743e02c75100e6613a58f54962ce38d07d64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 47/60] fix: histories are classified around any reference
 body, once all positions are relative to it

---
 posidonius/analysis/history.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index 7755873..9c1924c 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -56,9 +56,11 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
 
     planets_data = {}
     planets_keys = [] # To ensure the order
-    for i in range(n_particles-1):
-        planets_data["{}".format(i+1)] = data[data['particle'] == i+1]
-        planets_keys.append("{}".format(i+1))
+    for i in range(n_particles):
+        if i == reference_particle_index:
+            continue
+        planets_data["{}".format(i)] = data[data['particle'] == i]
+        planets_keys.append("{}".format(i))
 
     # From inertial to heliocentric coordinates
     n_data_points = len(star_data['position_x'])
@@ -70,6 +72,8 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
         planets_data[key]['velocity_x'] -= star_data['velocity_x']
         planets_data[key]['velocity_y'] -= star_data['velocity_y']
         planets_data[key]['velocity_z'] -= star_data['velocity_z']
+    # Once all the planets are in heliocentric coordinates
+    for key in planets_keys:
         semimajor_axis = []
         eccentricity = []
         inclination = []
-- 
2.43.0


From 7f0c2270908584eec89c15d13a7a549161578ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:50 +0000
Subject: [PATCH 48/60] fix: Python can set a particle as reference of another

---
 posidonius/particles/particle.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index cbf43fe..f392368 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -8,24 +8,9 @@ from posidonius import effects
 
 class Reference(object):
     def __init__(self, variant, index=None):
-        self._data = {
-            "effect": "Disabled",
-            "parameters": {
-                "input": {
-                    "k_factor": 0.0,
-                    "rotation_saturation": 0.0,
-                },
-                "internal": {
-                    "rotation_saturation_2": 0.0,
-                },
-                "output": {
-                    "factor": 0.0,
-                },
-            },
-        }
         if variant in ("Particle", ):
-            self._data[variant] = int(index)
-        if variant in ("MostMassiveParticle", ):
+            self._data = {variant: int(index)}
+        elif variant in ("MostMassiveParticle", ):
             self._data = variant
         else:
             raise Exception("Unknown variant '{}'".format(variant))
@@ -42,7 +27,7 @@ class MostMassiveParticle(Reference):
 
 class ReferenceParticle(Reference):
     def __init__(self, index):
-        super(ReferenceParticle, self).__init__("ReferenceParticle", index=index)
+        super(ReferenceParticle, self).__init__("Particle", index=index)
 
 
 class Particle(object):
-- 
2.43.0


From a8303b8f95dea1d675c8f53c07c008dda990bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:09 +0000
Subject: [PATCH 49/60] fix: the Roche radii follow the radii of evolving
 bodies

---
 src/particles/universe.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 3e2490b..702baa1 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -313,6 +313,8 @@ impl Universe {
         if evolution && self.consider_effects.evolution {
             // Evolve quantities that require a computed spin
             evolution::calculate_particles_spin_dependent_evolving_quantities(current_time, &mut particles, &mut self.particles_evolvers);
+            // The distance of disruption depends on the radius
+            self.calculate_roche_radiuses();
         }
     }
 
-- 
2.43.0


From fc8b82642c2a700ac88bdb2b85f28f4872f9e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:15 +0000
Subject: [PATCH 50/60] fix: longitude of the ascending node in the resonance
 data is not that of the perihelion

---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index 5420d20..bc5f849 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -160,7 +160,7 @@ def calculate_resonance_data(star_data, planets_keys, planets_data):
         e.append(_e)
         # Change from longitude of perihelion to argument of perihelion
         longitude_of_perihelion_degrees = (_p * RAD2DEG) % 360.
-        longitude_of_ascending_node_degrees = (_p * RAD2DEG) % 360.
+        longitude_of_ascending_node_degrees = (_n * RAD2DEG) % 360.
         g.append((longitude_of_perihelion_degrees - longitude_of_ascending_node_degrees) % 360.)
         n.append(longitude_of_ascending_node_degrees)
         M.append((_l * RAD2DEG) % 360.)
-- 
2.43.0


From 33b848d5172eae231ffee308cb25a72560c2ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:36 +0000
Subject: [PATCH 51/60] fix: candidate resonances reach the documented limit of
 the numerator

---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index bc5f849..53a1a14 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -58,7 +58,7 @@ def get_possible_resonances(periodRatio, uncertainty=0.05, denominator_limit=12,
     # We sort the resonances to get the more interesting first (3:2 before 32:27 for instance)
     tmp = [(res.numerator, res) for res in resonances]
     tmp.sort()
-    resonances = [element[1] for element in tmp if element[1].numerator < numerator_limit]
+    resonances = [element[1] for element in tmp if element[1].numerator <= numerator_limit]
 
     #~ print(uncertainty)
     #~ print(periodMin)
-- 
2.43.0


From c1420d69e41f2bdc8e39085e9595d8e58e8504a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 52/60] fix: find the dissipation factor scale of a planet in
 the case file (mean tidal flux was always reported as zero)

---
 scripts/explore_history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/explore_history.py b/scripts/explore_history.py
index 4961433..f2199c4 100644
--- a/scripts/explore_history.py
+++ b/scripts/explore_history.py
@@ -139,9 +139,9 @@ if __name__ == "__main__":
             mean_tidal_flux = gravitational_energy_lost / (4 * np.pi * np.power(planet_data['radius'] * posidonius.constants.AU, 2))
             tidal_effect = universe_integrator_json['universe']['particles'][int(key)]['tides']['effect']
             if 'OrbitingBody' in tidal_effect:
-                dissipation_factor_scale = tidal_effect.get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
+                dissipation_factor_scale = tidal_effect['OrbitingBody'].get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
             elif 'CentralBody' in tidal_effect:
-                dissipation_factor_scale = tidal_effect.get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
+                dissipation_factor_scale = tidal_effect['CentralBody'].get('ConstantTimeLag', {}).get('dissipation_factor_scale', 0.)
             else:
                 dissipation_factor_scale = 0.
             mean_tidal_flux *= dissipation_factor_scale
-- 
2.43.0


From 21ae8e6b8caf54e43f59eb0070e4fce1dcdfb7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 53/60] fix: planet precession angle took the sine of an
 obliquity in degrees

---
 scripts/explore_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/explore_history.py b/scripts/explore_history.py
index f2199c4..e40e702 100644
--- a/scripts/explore_history.py
+++ b/scripts/explore_history.py
@@ -90,7 +90,7 @@ if __name__ == "__main__":
         ## Planet precession angle
         # https://en.wikipedia.org/wiki/Apsidal_precession
         # Angle defined between an arbitrary direction and the semi-major axis direction
-        numerator = 1./np.sin(planet_obliquity) \
+        numerator = 1./np.sin(planet_obliquity*np.pi/180.) \
                     *(planet_data['position_x']*planet_data['spin_x'] \
                         + planet_data['position_y']*planet_data['spin_y'] \
                         + planet_data['position_z']*planet_data['spin_z'])
-- 
2.43.0


From 4c68e2dd7bf463c8483ef37f91a669e2cd829ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 54/60] fix: report the pseudo-synchronization period of
 eccentric orbits (was overwritten with NaN)

---
 scripts/explore_history.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/explore_history.py b/scripts/explore_history.py
index e40e702..386893c 100644
--- a/scripts/explore_history.py
+++ b/scripts/explore_history.py
@@ -115,7 +115,6 @@ if __name__ == "__main__":
         pseudo_rot = alpha * np.sqrt(posidonius.constants.G_SI*posidonius.constants.M_SUN*(star_mass+planet_mass))
         #pseudo_synchronization_period  = 2.*np.pi / (pseudo_rot * (planet_data['semi-major_axis']*AU)**(-3./2.) * posidonius.constants.HOUR) # Hours
         pseudo_synchronization_period  = 2.*np.pi / (pseudo_rot * (planet_data['semi-major_axis']*posidonius.constants.AU)**(-3./2.) * posidonius.constants.DAY) # Days
-        pseudo_synchronization_period[non_zero] = np.nan
         planet_computed_data['pseudo_synchronization_period'] = pseudo_synchronization_period
 
         if universe_integrator_json['universe']['consider_effects']['tides']:
-- 
2.43.0


From e2b15a2bbd364291eca1988ddefc2dbb3b49593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:04 +0000
Subject: [PATCH 55/60] fix: timed resonances of histories with more than 500
 entries (sampling step was not an integer)

---
 scripts/explore_timed_resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/explore_timed_resonances.py b/scripts/explore_timed_resonances.py
index 32ef410..5b2251c 100644
--- a/scripts/explore_timed_resonances.py
+++ b/scripts/explore_timed_resonances.py
@@ -67,7 +67,7 @@ if __name__ == "__main__":
 
     # If the user require more measurement than timestep available, we force to have nb_measurements equal the number of timestep
     if (NB_MEASUREMENTS < max_lengths):
-        time_delay = max_lengths / NB_MEASUREMENTS
+        time_delay = max_lengths // NB_MEASUREMENTS
     else:
         time_delay = 1
 
-- 
2.43.0


From c10f39d6f31424de5b6aa90126a6f3af118670d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 56/60] fix: a resonance is only extended while it is held with
 the same outer planet

---
 scripts/explore_timed_resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/explore_timed_resonances.py b/scripts/explore_timed_resonances.py
index 5b2251c..e75d128 100644
--- a/scripts/explore_timed_resonances.py
+++ b/scripts/explore_timed_resonances.py
@@ -174,7 +174,7 @@ if __name__ == "__main__":
                         last_index_range = resonance_index_range[still_here_planets[inner]][-1]
 
                         # if the two index ranges overlap
-                        if ((last_type == res) and (last_index_range[1] >= range_start-1)):
+                        if ((last_type == res) and (resonance_with[still_here_planets[inner]][-1] == still_here_planets[outer]) and (last_index_range[1] >= range_start-1)):
                             isExtend = True
 
                     # if the current resonance already existed before, we only extend the index range of validity for the last resonance of the inner planet index
-- 
2.43.0


From e0f22bfba2fc0bf560e2be5141561f72dc7baf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:21 +0000
Subject: [PATCH 57/60] fix: Python tools refused the 1.5 solar mass Bolmont &
 Mathis table the simulator supports

---
 posidonius/effects/evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index ad98c23..5fec0af 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -299,6 +299,8 @@ class BolmontMathis2016(EvolutionType):
             filename = "input/Bolmont_Mathis_2016/L13Z02r.dat"
         elif mass <= 1.401 and mass >= 1.399:
             filename = "input/Bolmont_Mathis_2016/L14Z02r.dat"
+        elif mass <= 1.501 and mass >= 1.499:
+            filename = "input/Bolmont_Mathis_2016/L15Z02r.dat"
         else:
             raise Exception("The evolution type Bolmont_Mathis_2016 does not support a mass of {} Msun!".format(mass))
 
-- 
2.43.0


From 9bd7f7b3a80655d9a639595c290346bd2c964344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:29 +0000
Subject: [PATCH 58/60] fix: Python tools compared the end of the evolution
 tables with the initial time instead of the time limit

---
 posidonius/particles/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index fea685a..0c99e54 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -130,8 +130,8 @@ class Universe(object):
         evolver = particle.get_evolver(self._data['initial_time'])
         if len(evolver['time']) > 0 and evolver['time'][0] > 0.:
             raise Exception("Your initial time ({} days | {:.2e} years) is smaller than the minimum allowed age of the star ({} days | {:.2e} years)".format(self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0]+self._data['initial_time'], (evolver['time'][0]+self._data['initial_time'])/365.25));
-        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['initial_time']:
-            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)", self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0], evolver['time'][0]/365.25)
+        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['time_limit']:
+            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)".format(self._data['time_limit'], self._data['time_limit']/365.25, evolver['time'][-1], evolver['time'][-1]/365.25))
 
         if particle.evolution() != effects.evolution.NonEvolving and self._data["consider_effects"]["evolution"]:
             # Check if input radius is close enough to evolved radius at the corresponding time and update it + angular momentum if not
-- 
2.43.0


From 752a8951c9848b61d01c351b222e0d86fd3c523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 59/60] fix: Python tools accepted one body more than the
 simulator supports

---
 posidonius/particles/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 0c99e54..4de6179 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -71,7 +71,7 @@ class Universe(object):
         self._data['n_particles'] -= 1 # Compensate the addition from the previous add_particle call
 
     def add_particle(self, particle):
-        if self._data['n_particles'] > MAX_PARTICLES:
+        if self._data['n_particles'] >= MAX_PARTICLES:
             raise Exception("Maximum number of particles reached: {}".format(MAX_PARTICLES))
 
         if effects.tides.CentralBody in particle.effects():
-- 
2.43.0


From bcad8a592509811bd96ad5dcadcec1820106da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 60/60] fix: Python tools accepted different hosts for tides
 and rotational flattening, which the simulator does not support

---
 posidonius/particles/universe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 4de6179..213f380 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -196,6 +196,8 @@ class Universe(object):
                 self._data['hosts']['index']['most_massive'] = i
         if self._data['hosts']['index']['general_relativity'] != MAX_PARTICLES+1 and self._data['hosts']['index']['general_relativity'] != self._data['hosts']['index']['most_massive']:
                 raise Exception("The most massive body should be the central body for general relativity effects!")
+        if self._data["consider_effects"]["tides"] and self._data["consider_effects"]["rotational_flattening"] and self._data['hosts']['index']['tides'] != self._data['hosts']['index']['rotational_flattening']:
+                raise Exception("The central body for tidal & rotational flattening effects needs to be the same!")
 
     def check_effects_vs_central_and_orbiting(self):
         found_tides_central_body = False
-- 
2.43.0

