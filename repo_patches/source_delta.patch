From 7749b222a3d2ec038abdeac491d2582daccf47d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 01/33] fix: adding more than 255 days to a date truncated the
 day count to 8 bits

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From 1007894a8022b6ef2ee8c2c389d061bd75592322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 02/33] fix: negative solar irradiance on the back side was not
 ignored as on the front

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..ffdac6c 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1267,7 +1267,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From 5222193018a9c40faba9c82891348440d91e43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 03/33] fix: back convection towards an ambient temperature
 used the front surface temperature

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index ffdac6c..3eac4ad 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -684,7 +684,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From e83de2a02e769e7996adfc798ff32b26a60d3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 04/33] fix: every EPW wind direction was read as 360 or more

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From 48534a4b5599a339e7103e7dc9127612a60354cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 05/33] fix: non-finite direct normal radiation was never
 replaced by zero

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..7c23c78 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -356,7 +356,7 @@ impl Solar {
             next_hour_data,
             prev_hour_data,
         );
-        if direct_normal_radiation.is_nan() && direct_normal_radiation.is_infinite() {
+        if direct_normal_radiation.is_nan() || direct_normal_radiation.is_infinite() {
             direct_normal_radiation = 0.0;
         }
 
-- 
2.43.0


From 291b0e09eb3e0727729b138b078c67f7ced370ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 06/33] fix: weather after the last record of the year was
 extrapolated by a whole extra year

---
 weather/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..7c9399d 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,11 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let mut date_n = date.day_of_year();
+                    if i == 0 {
+                        // The date is in the year after the last one in the data
+                        date_n += 365.;
+                    }
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From c0217b5ff40ea4b0c8fc917b2f93c5f92517fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 07/33] fix: composing transforms left an inverse that is not
 the inverse

---
 geometry/src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..70afa41 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,7 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From 9f34fb56084d992ddd49018cfcc734b4cda7d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 08/33] fix: new n-diagonal matrices were filled with a running
 count instead of the given value

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From 21ab14d9a6072fe704a9480006c8cc33a8356ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 09/33] fix: the visible reflectance of a substance was used as
 its absorptance

---
 rendering/src/from_simple_model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/from_simple_model.rs b/rendering/src/from_simple_model.rs
index a261d0f..95c5d9e 100644
--- a/rendering/src/from_simple_model.rs
+++ b/rendering/src/from_simple_model.rs
@@ -202,7 +202,7 @@ impl SimpleModelReader {
                         }
                     },
                     Wavelengths::Visible => match s.front_visible_reflectance() {
-                        Ok(v) => *v,
+                        Ok(v) => 1. - *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
                             0.7
-- 
2.43.0


From c22a64f7e07422202aefe7ee61117857e625f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 10/33] fix: the sun near the zenith was placed 87 degrees away
 from it

---
 rendering/src/scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/scene.rs b/rendering/src/scene.rs
index 4290fe0..54fbf2b 100644
--- a/rendering/src/scene.rs
+++ b/rendering/src/scene.rs
@@ -167,7 +167,7 @@ impl Scene {
                     it did not allow me to create a constant of that value... so I
                     did this just in case
                 */
-                (3. * crate::PI / 180.).acos()
+                3. * crate::PI / 180.
             } else {
                 cos_zenit.acos()
             };
-- 
2.43.0


From 84788959e396f052e3ad25e6d03af6257cc68004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 11/33] fix: view factors tested the surface normal for
 obstructions instead of each sampled direction

---
 light/src/solar_surface.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index 2a400e7..8a561a4 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -319,7 +319,11 @@ impl SolarSurface {
                 let u = rng.gen();
                 let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
 
-                if scene.cast_ray(*ray, &mut node_aux).is_none() {
+                let sample = Ray3D {
+                    origin: ray.origin,
+                    direction: dir,
+                };
+                if scene.cast_ray(sample, &mut node_aux).is_none() {
                     if dir.z > 0.0 {
                         sky += 1.0;
                     } else {
-- 
2.43.0


From 8c48b60eef62997703830da8f396c1193348f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 12/33] fix: updating a sky vector in place added the new sky
 to the old one

---
 weather/src/solar/perez.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..384b130 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -431,6 +431,11 @@ impl PerezSky {
             return Err(format!("when update_sky_vec() : number of elements of input vector ({}) does not match the number of bins for the Reinhart subdivition (MF {} require {} bins)", rows, mf, r.n_bins));
         }
 
+        // forget whatever the vector contained before
+        for bin in 0..r.n_bins {
+            vec.set(bin, 0, 0.0)?;
+        }
+
         let dew_point = weather_data.dew_point_temperature;
         let diffuse_horizontal_irrad = weather_data.diffuse_horizontal_radiation;
         let direct_normal_irrad = weather_data.direct_normal_radiation;
-- 
2.43.0


From c808b40c3daff0ff580c2ad4b231edc0cd0c9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 13/33] fix: a cavity with a Rayleigh number of exactly 50000
 panicked

---
 heat/src/gas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..1b6415c 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -286,7 +286,7 @@ fn nu_90(ra: Float, a_gi: Float) -> Float {
     let nu1 = if ra <= 1e4 {
         // Eq. 52
         1. + 1.7596678 * 1e-10 * ra.powf(2.2984755)
-    } else if ra < 5e4 {
+    } else if ra <= 5e4 {
         // Eq. 51
         0.028154 * ra.powf(0.4134)
     } else if ra > 5e4 {
-- 
2.43.0


From 13ce4fdc21ed377882835462cbda55b26745a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 14/33] fix: the solar options of a model were lost when
 writing it as SPL

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..3b3cf81 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From d040a6f15435e66461d61640bc4406f3a80a9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 15/33] fix: objects of an unknown type in an SPL file were
 silently ignored

---
 model/src/scanner.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..f9a4653 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -215,6 +215,22 @@ impl<'a> SimpleScanner<'a> {
 
     /// Parses a whole [`Model`] from a text file
     pub(crate) fn parse_model(&mut self) -> Result<(Model, SimulationStateHeader), String> {
+        const READ_ORDER: [&str; 13] = [
+            "Space",
+            "Substance",
+            "Material",
+            "Construction",
+            "Surface",
+            "Fenestration",
+            "Building",
+            "HVAC",
+            "Luminaire",
+            "Object",
+            "Output",
+            "SiteDetails",
+            "SolarOptions",
+        ];
+
         let mut data = HashMap::<String, Vec<(&str, usize)>>::new();
 
         loop {
@@ -244,6 +260,13 @@ impl<'a> SimpleScanner<'a> {
             };
 
             // Store.
+            if !READ_ORDER.iter().any(|x| x.as_bytes() == ident) {
+                let errmsg = Self::make_error_msg(
+                    format!("unknown identifier {}", String::from_utf8_lossy(ident)),
+                    self.line,
+                );
+                return Err(errmsg);
+            }
             let key = std::str::from_utf8(ident)
                 .expect("Could not scan")
                 .to_string();
@@ -255,23 +278,7 @@ impl<'a> SimpleScanner<'a> {
         }
         // Now, build the model
         let mut model = Model::default();
-        let read_order = vec![
-            "Space",
-            "Substance",
-            "Material",
-            "Construction",
-            "Surface",
-            "Fenestration",
-            "Building",
-            "HVAC",
-            "Luminaire",
-            "Object",
-            "Output",
-            "SiteDetails",
-            "SolarOptions",
-        ];
-
-        for ident in read_order {
+        for ident in READ_ORDER {
             if !data.contains_key(ident) {
                 continue;
             }
-- 
2.43.0


From 385875cbbe33f3c81d54da800bc149db0c555074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 16/33] fix: results could be truncated when the output
 accepted only part of a write

---
 src/run_simulation.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..0129853 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -204,24 +204,24 @@ where
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out
+        .write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out
+        .write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -247,8 +247,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out
+            .write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -257,12 +257,12 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out
+                .write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
-        let _u = out
-            .write(b"\n")
+        out
+            .write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
@@ -300,24 +300,24 @@ where
     };
 
     // Write header
-    let _u = out
-        .write(b"Date,")
+    out
+        .write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            let _u = out
-                .write(s.as_bytes())
+            out
+                .write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    let _u = out
-        .write(b"\n")
+    out
+        .write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -347,8 +347,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
+        out
+            .write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -357,13 +357,13 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
+            out
+                .write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
         std::mem::drop(state_lock); // drop mutex
-        let _u = out
-            .write(b"\n")
+        out
+            .write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
-- 
2.43.0


From 1b198842039732b7212a20ad76298408ee95f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 17/33] fix: rows ended with a comma when some requested output
 does not exist

---
 src/run_simulation.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 0129853..7f295b5 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,11 +195,7 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
@@ -293,11 +289,7 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
     out
-- 
2.43.0


From 0d8f38ec1858fd38675344bc8a5c88aea7908b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:45 +0000
Subject: [PATCH 18/33] fix: an empty weather file panicked instead of
 reporting an error

---
 src/run_simulation.rs | 45 ++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 7f295b5..3abbc08 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -123,6 +123,9 @@ fn pre_process(
         }
     };
 
+    if weather.data.is_empty() {
+        return Err("The weather file contains no data".to_string());
+    }
     let start = weather.data[0].date;
     let mut end = weather.data[weather.data.len() - 1].date;
     end.hour -= 0.1;
@@ -200,24 +203,20 @@ where
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    out
-        .write_all(b"Date,")
+    out.write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            out
-                .write_all(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            out
-                .write_all(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    out
-        .write_all(b"\n")
+    out.write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -243,8 +242,7 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        out
-            .write_all(ds.as_bytes())
+        out.write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -253,12 +251,10 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            out
-                .write_all(st.as_bytes())
+            out.write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
-        out
-            .write_all(b"\n")
+        out.write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
@@ -292,24 +288,20 @@ where
     let report_len = pre_process_data.report_indexes.len();
 
     // Write header
-    out
-        .write_all(b"Date,")
+    out.write_all(b"Date,")
         .expect("Could not write to output file (header => 'Date').");
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            out
-                .write_all(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         } else {
-            out
-                .write_all(s.as_bytes())
+            out.write_all(s.as_bytes())
                 .expect("Could not write to output file (header).");
         }
     }
-    out
-        .write_all(b"\n")
+    out.write_all(b"\n")
         .expect("Could not write to output file (header newline).");
 
     /* ************************************ */
@@ -339,8 +331,7 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        out
-            .write_all(ds.as_bytes())
+        out.write_all(ds.as_bytes())
             .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
@@ -349,13 +340,11 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            out
-                .write_all(st.as_bytes())
+            out.write_all(st.as_bytes())
                 .expect("Could not write to output file (data)");
         }
         std::mem::drop(state_lock); // drop mutex
-        out
-            .write_all(b"\n")
+        out.write_all(b"\n")
             .expect("Could not write to output file (newline)");
     }
 
-- 
2.43.0


From af0d15fa5ac970a90e2ae2e421836e0f6c15094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:31 +0000
Subject: [PATCH 19/33] fix: holes in the same direction as their outline got
 wrong vertices when the polygon is closed

---
 geometry/src/polygon3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..dac68b7 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,7 +345,7 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + n_inner_loop_vertices - j) % n_inner_loop_vertices
                         } else {
                             (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
                         };
-- 
2.43.0


From 7db25669d71a46b8922d142a349f0968539a7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 20/33] fix: an SPL file that ends after the type of an object
 was scanned forever

---
 model/src/scanner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index f9a4653..3d7d73d 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -174,6 +174,11 @@ impl<'a> SimpleScanner<'a> {
 
         let (mut open, mut close) = ('{', '}');
 
+        if self.finished {
+            let errmsg = Self::make_error_msg("Unexpected End of File", self.line);
+            return Err(errmsg);
+        }
+
         while levels > 0 || !started {
             let next = self.peek();
             if !started && (next == ',') {
-- 
2.43.0


From 9b92f835249ffe81b65fb02dad99cf6877e7383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 21/33] fix: a value that is not a number in an EPW file
 panicked instead of being reported as an error

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 0fcaac3..6da56d5 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -156,7 +156,7 @@ impl<'a> EPWScanner<'a> {
             let the_v = match v.parse::<Float>() {
                 Ok(v) => v,
                 Err(msg) => {
-                    panic!("{}", msg);
+                    return Err(format!("Could not scan number '{}'... {}", v, msg));
                 }
             };
 
-- 
2.43.0


From 6732a3d075fa8a4d3702ef7498d45edc3ede028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 22/33] fix: an EPW file that starts with an empty element made
 the scanner panic

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 6da56d5..d7414e7 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -118,7 +118,7 @@ impl<'a> EPWScanner<'a> {
 
         // Ignore the \r thing that I hate
         let mut end = self.current;
-        if self.src[end - 1] == b'\r' {
+        if end > self.start && self.src[end - 1] == b'\r' {
             end -= 1;
         }
         let (ini, fin) = (self.start, end);
-- 
2.43.0


From 74b02fcda5f91dff4568db7f06bef0f9015e57a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 23/33] fix: converting a Date to a chrono NaiveDateTime gave
 wrong seconds (and minutes past the half minute)

---
 calendar/src/date.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d09fc9..0b5373b 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -137,18 +137,10 @@ impl Date {
     pub fn into_naive_datetime(self, year: i32) -> Result<NaiveDateTime, String> {
         let hour = self.hour.floor();
         let remainder = self.hour - hour;
-        let min = remainder * 60.0;
-        let sec = (60.0 - min) * 60.0;
-
-        let mut min = min.round() as u32;
-        let mut sec = sec.round() as u32;
-
-        if min == 60 {
-            min = 59;
-            sec = 59;
-        }
-
-        sec %= 60;
+        // whole seconds within the hour (without rounding up to the next hour)
+        let seconds = ((remainder * 3600.0).round() as u32).min(3599);
+        let min = seconds / 60;
+        let sec = seconds % 60;
 
         let r = NaiveDate::from_ymd_opt(year, self.month as u32, self.day as u32)
             .ok_or("Could not build chronos::Date")?;
-- 
2.43.0


From 589546acb78166cb3876e1146e3c74cbac1a6347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 24/33] fix: a light seen exactly from its side was sampled
 forever

---
 rendering/src/ray_tracer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 266a9b5..c388e17 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -246,10 +246,12 @@ impl RayTracer {
                     direction: wi,
                 };
 
+                // Count the sample, even if it misses the light (e.g., a light
+                // that is seen exactly from its side)
+                i += 1;
                 if let Some((light_colour, light_pdf)) =
                     intersect_light(scene, light, shadow_ray, node_aux)
                 {
-                    i += 1;
                     if light_pdf < 1e-18 {
                         // The light is obstructed... don't add light, but count it.
                         continue;
-- 
2.43.0


From 9d743f78fe60fc1cb53bd9ad98e7d33bf31dd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 25/33] fix: a malformed polygon in JSON is an error, not a
 panic

---
 geometry/src/loop3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..e51a599 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -152,7 +152,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get X... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 let y = it.next();
                 let y = match y {
@@ -161,7 +165,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Y... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 let z = it.next();
                 let z = match z {
@@ -170,7 +178,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Z... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers",
+                        ))
+                    }
                 };
                 // We push "as is"
                 ret.push_collinear(Point3D { x, y, z }, false)
-- 
2.43.0


From 23c0dcc6aad3bcbdc5f8e425e14118183c0d7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 26/33] fix: a ray beyond the hypotenuse of a triangle is not
 an intersection

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..616a846 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -57,7 +57,7 @@ pub fn intersect_triangle(
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if !(0.0..=1.0).contains(&v) || u + v > 1.0 {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From 663b75a07ac54522bf40ec49bb5bf73d0122f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 27/33] fix: a cylinder between two points keeps the azimuth of
 its axis

---
 geometry/src/cylinder3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/cylinder3d.rs b/geometry/src/cylinder3d.rs
index 4d18a31..74dc4d7 100644
--- a/geometry/src/cylinder3d.rs
+++ b/geometry/src/cylinder3d.rs
@@ -72,8 +72,8 @@ impl Cylinder3D {
         let rot_y_degrees = (x * x + y * y).sqrt().atan2(z).to_degrees();
         let rot_z_degrees = y.atan2(x).to_degrees();
 
-        transform *= Transform::rotate_y(rot_y_degrees);
         transform *= Transform::rotate_z(rot_z_degrees);
+        transform *= Transform::rotate_y(rot_y_degrees);
 
         Self::new_transformed(
             radius,
-- 
2.43.0


From 5af4b21ae68adf96d531d1ae3d36e96d52d5bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 28/33] fix: negating an interval swaps its bounds

---
 geometry/src/round_error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/round_error.rs b/geometry/src/round_error.rs
index 8bfa067..b560716 100644
--- a/geometry/src/round_error.rs
+++ b/geometry/src/round_error.rs
@@ -169,8 +169,8 @@ impl std::ops::Neg for ApproxFloat {
 
     fn neg(self) -> Self::Output {
         Self {
-            low: -self.low,
-            high: -self.high,
+            low: -self.high,
+            high: -self.low,
         }
     }
 }
-- 
2.43.0


From d89620ce1d9839f7ffa071fa1eec904f1560ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 29/33] fix: the normal of a hit on a scaled shape keeps unit
 length

---
 geometry/src/intersection.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/geometry/src/intersection.rs b/geometry/src/intersection.rs
index 6c5f71c..33e8b05 100644
--- a/geometry/src/intersection.rs
+++ b/geometry/src/intersection.rs
@@ -173,11 +173,17 @@ impl IntersectionInfo {
 
     /// Applies a `Transform` to the `IntersectionInfo`, creating a new one.
     pub fn transform(&self, transform: &Transform) -> Self {
+        let mut normal = transform.transform_normal(self.normal);
+        // a scale changes the length of the normal (which is zero if the side is not applicable)
+        let length = normal.length();
+        if length > 0. {
+            normal /= length;
+        }
         Self {
             p: transform.transform_pt(self.p),
             dpdu: transform.transform_vec(self.dpdu),
             dpdv: transform.transform_vec(self.dpdv),
-            normal: transform.transform_normal(self.normal),
+            normal,
             side: self.side,
             #[cfg(feature = "textures")]
             u: self.u,
@@ -192,11 +198,17 @@ impl IntersectionInfo {
 
     /// Applies the inverse of a `Transform` to the `IntersectionInfo`, creating a new one.
     pub fn inv_transform(&self, transform: &Transform) -> Self {
+        let mut normal = transform.inv_transform_normal(self.normal);
+        // a scale changes the length of the normal (which is zero if the side is not applicable)
+        let length = normal.length();
+        if length > 0. {
+            normal /= length;
+        }
         Self {
             p: transform.inv_transform_pt(self.p),
             dpdu: transform.inv_transform_vec(self.dpdu),
             dpdv: transform.inv_transform_vec(self.dpdv),
-            normal: transform.inv_transform_normal(self.normal),
+            normal,
             side: self.side,
             #[cfg(feature = "textures")]
             u: self.u,
-- 
2.43.0


From 4edda627b5de734bfe1672cd93c1955fdd851771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:24 +0000
Subject: [PATCH 30/33] fix: the solid angle of a triangle light is seen along
 the ray, not from the world origin

---
 rendering/src/primitive_samplers.rs | 4 ++--
 rendering/src/triangle/mod.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 5046158..61cf157 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -56,14 +56,14 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (info.p - ray.origin).length_squared();
-    let cos_theta = ray.origin * info.normal;
+    let cos_theta = (ray.direction * info.normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle.area();
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /* END OF TRIANGLE */
diff --git a/rendering/src/triangle/mod.rs b/rendering/src/triangle/mod.rs
index f8d834b..007055f 100644
--- a/rendering/src/triangle/mod.rs
+++ b/rendering/src/triangle/mod.rs
@@ -90,14 +90,14 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (point - ray.origin).length_squared();
-    let cos_theta = ray.origin * normal;
+    let cos_theta = (ray.direction * normal).abs();
     // debug_assert!(cos_theta > 0.);
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle_area(t);
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /// Gets the BBox of a Triangle
-- 
2.43.0


From 95eb3144a1670bc52cf47ccaa709d457b3b893db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 31/33] fix: the pixel of a ray in a film that is not square

---
 rendering/src/camera/pinhole.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rendering/src/camera/pinhole.rs b/rendering/src/camera/pinhole.rs
index 6bc38f8..8456677 100644
--- a/rendering/src/camera/pinhole.rs
+++ b/rendering/src/camera/pinhole.rs
@@ -87,11 +87,6 @@ impl Camera for Pinhole {
         }
         let z = intersection_pt * self.view.view_up;
 
-        // If it is out of the FOV, return None.
-        if z.abs() > 1. || x.abs() > 1. {
-            return ((0, 0), 0.);
-        }
-
         let (width, height) = self.film.resolution;
         let xlim = 2.;
         let aspect_ratio = height as Float / width as Float;
@@ -99,9 +94,14 @@ impl Camera for Pinhole {
         let dx = xlim / width as Float;
         let dy = ylim / height as Float;
 
+        // If it is out of the FOV, return None.
+        if z.abs() > ylim / 2. || x.abs() > xlim / 2. {
+            return ((0, 0), 0.);
+        }
+
         // Else, calculate:
         let x = (x + 1.) / dx;
-        let y = (1. - z) / dy;
+        let y = (ylim / 2. - z) / dy;
 
         // return
         ((x.floor() as usize, y.floor() as usize), 1.)
-- 
2.43.0


From b065e64f77b6e2baa0abba1f876b56236d691c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 32/33] fix: glossy reflections are taken about the sampled
 half vector

---
 rendering/src/material/ward.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rendering/src/material/ward.rs b/rendering/src/material/ward.rs
index 0619f9b..cf7b162 100644
--- a/rendering/src/material/ward.rs
+++ b/rendering/src/material/ward.rs
@@ -74,8 +74,7 @@ pub fn sample_ward_anisotropic(
 
             let h = Vector3D::new(cosp * d, sinp * d, 1.0);
             d = (h * wo) * 2. / (1. + d.powi(2));
-            let mut v = -wo;
-            v.z += d;
+            let mut v = h * d - wo;
             v.normalize();
             debug_assert!((1. - v.length()).abs() < 1e-5, "len of v = {}", v.length());
 
-- 
2.43.0


From ecdbbf94de5f9d7d5ec00073854d7a518c4dabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 33/33] fix: a ray reflected by a dielectric stays in its
 medium

---
 rendering/src/material/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rendering/src/material/mod.rs b/rendering/src/material/mod.rs
index 759b9cd..92fb644 100644
--- a/rendering/src/material/mod.rs
+++ b/rendering/src/material/mod.rs
@@ -160,14 +160,17 @@ impl Material {
             Self::Mirror(m) => m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags),
             Self::Dielectric(m) => {
                 let ret = m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags);
+                // A reflected ray stays in the medium it was in
+                let transmitted = matches!(&ret, Some(sample) if sample.is_transmission());
                 // if front or back?
                 // dbg!("Fxix the refraction index transition");
                 match interaction.geometry_shading.side {
                     // Going in
-                    SurfaceSide::Front => *eta = m.refraction_index,
+                    SurfaceSide::Front if transmitted => *eta = m.refraction_index,
                     // Going out... TODO?: create a stack of refraction indexes
-                    SurfaceSide::Back => *eta = 1.0,
-                    _ => unreachable!(),
+                    SurfaceSide::Back if transmitted => *eta = 1.0,
+                    SurfaceSide::NonApplicable => unreachable!(),
+                    _ => {}
                 }
                 ret
             }
-- 
2.43.0

