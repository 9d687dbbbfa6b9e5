From 5ecd14555ad51292f121393870f567f95e368df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 01/16] fix: bodycentric center changes use the ephemeris of
 the given context

to_center_as to and from Bodycentric ignored its AstroContext and always
located the orbit's central body with the default ephemeris.
---
 .../centers/position/to_bodycentric.rs        | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/coordinates/transform/centers/position/to_bodycentric.rs b/src/coordinates/transform/centers/position/to_bodycentric.rs
index 49a1f5b..bbca6ec 100644
--- a/src/coordinates/transform/centers/position/to_bodycentric.rs
+++ b/src/coordinates/transform/centers/position/to_bodycentric.rs
@@ -66,7 +66,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -85,7 +85,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -94,7 +95,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
@@ -123,7 +125,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -142,7 +144,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> = body_geo_ecl.to_center(jd);
+                let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -152,7 +155,7 @@ where
                     body_ecliptic_au.z(),
                 );
                 let body_helio_ecl: EclipticMeanJ2000<U, Heliocentric> =
-                    body_bary_ecl.to_center(jd);
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_helio_ecl.to_frame()
             }
         };
@@ -181,7 +184,7 @@ where
         &self,
         body_params: BodycentricParams,
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Bodycentric, F, U> {
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
 
@@ -200,7 +203,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_helio_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
             OrbitReferenceCenter::Geocentric => {
@@ -209,7 +213,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> = body_geo_ecl.to_center(jd);
+                let body_bary_ecl: EclipticMeanJ2000<U, Barycentric> =
+                    body_geo_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_bary_ecl.to_frame()
             }
         };
@@ -238,7 +243,7 @@ where
         &self,
         _params: (),
         jd: JulianDate,
-        _ctx: &AstroContext<Eph, Eop>,
+        ctx: &AstroContext<Eph, Eop>,
     ) -> Position<Geocentric, F, U> {
         let body_params = *self.center_params();
         let body_ecliptic_au = body_params.orbit.position_with_mu(jd, body_params.mu);
@@ -258,7 +263,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_helio_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_helio_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
             OrbitReferenceCenter::Barycentric => {
@@ -267,7 +273,8 @@ where
                     body_ecliptic_au.y(),
                     body_ecliptic_au.z(),
                 );
-                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> = body_bary_ecl.to_center(jd);
+                let body_geo_ecl: EclipticMeanJ2000<U, Geocentric> =
+                    body_bary_ecl.to_center_as::<Eph, Eop, Nut>((), jd, ctx);
                 body_geo_ecl.to_frame()
             }
         };
-- 
2.43.0


From a6ae59bbe42c147b86102621bd7a64943cca3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 02/16] fix: body-fixed frames point their pole and prime
 meridian where the IAU elements say

---
 src/coordinates/transform/providers/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/coordinates/transform/providers/mod.rs b/src/coordinates/transform/providers/mod.rs
index 5250fc3..9a40472 100644
--- a/src/coordinates/transform/providers/mod.rs
+++ b/src/coordinates/transform/providers/mod.rs
@@ -455,10 +455,9 @@ fn iau_body_fixed_to_icrs(params: &IauRotationParams, jd: JulianDate) -> Rotatio
     let w = params.w(jd).to::<crate::qtty::Radian>();
     let right_angle = crate::qtty::Degrees::new(90.0).to::<crate::qtty::Radian>();
 
-    let z1 = -w;
-    let x = -(right_angle - delta0);
-    let z2 = -(alpha0 + right_angle);
-    Rotation3::from_euler_zxz(z1, x, z2)
+    // Active rotation Rz(α₀ + 90°) · Rx(90° − δ₀) · Rz(W): the body z-axis lands on the
+    // pole (α₀, δ₀) and the prime meridian lies W past the node at RA α₀ + 90°.
+    Rotation3::from_euler_zxz(w, right_angle - delta0, alpha0 + right_angle)
 }
 
 /// Computes the center shift from `C1` to `C2` in frame `F`.
-- 
2.43.0


From bb8ada6cdb17d54c3e4a4437d6b4d1450862932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 03/16] fix: Galactic to ICRS rotation was transposed (galactic
 pole and center pointed elsewhere)

---
 .../transform/providers/frames_catalog.rs            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/coordinates/transform/providers/frames_catalog.rs b/src/coordinates/transform/providers/frames_catalog.rs
index a01fab2..4e4062b 100644
--- a/src/coordinates/transform/providers/frames_catalog.rs
+++ b/src/coordinates/transform/providers/frames_catalog.rs
@@ -16,17 +16,17 @@ use crate::coordinates::transform::frames::bias;
 const GALACTIC_TO_ICRS: Rotation3 = Rotation3::from_matrix_unchecked([
     [
         -0.054_875_560_416_215_4,
-        -0.873_437_090_234_885_1,
-        -0.483_835_015_548_713_2,
+        0.494_109_427_875_583_7,
+        -0.867_666_149_019_004_7,
     ],
     [
-        0.494_109_427_875_583_7,
+        -0.873_437_090_234_885_1,
         -0.444_829_629_960_011_2,
-        0.746_982_244_580_286_6,
+        -0.198_076_373_431_201_5,
     ],
     [
-        -0.867_666_149_019_004_7,
-        -0.198_076_373_431_201_5,
+        -0.483_835_015_548_713_2,
+        0.746_982_244_580_286_6,
         0.455_983_776_175_066_9,
     ],
 ]);
-- 
2.43.0


From b7162e919d5dd4c6a3e7907f224ac99fb30212dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/16] fix: mean-of-date to horizontal transform measured
 azimuth westwards and failed at the poles

---
 .../transform/frames/to_horizontal.rs         | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/coordinates/transform/frames/to_horizontal.rs b/src/coordinates/transform/frames/to_horizontal.rs
index 9e40394..acc634b 100644
--- a/src/coordinates/transform/frames/to_horizontal.rs
+++ b/src/coordinates/transform/frames/to_horizontal.rs
@@ -85,7 +85,9 @@ fn equatorial_to_horizontal_angles(
     let cos_ha = ha.cos();
 
     // Use precomputed sin/cos of latitude
-    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha).asin();
+    let alt_val = (sin_dec * site_trig.sin_lat + cos_dec * site_trig.cos_lat * cos_ha)
+        .clamp(-1.0, 1.0)
+        .asin();
     let az_val = (-cos_dec * ha.sin())
         .atan2(sin_dec * site_trig.cos_lat - cos_dec * cos_ha * site_trig.sin_lat);
 
@@ -118,12 +120,12 @@ fn horizontal_to_equatorial_angles(
 
     // Calculate declination
     let sin_dec = sin_alt * site_trig.sin_lat + cos_alt * site_trig.cos_lat * az.cos();
-    let dec_val = sin_dec.asin();
+    let dec_val = sin_dec.clamp(-1.0, 1.0).asin();
 
-    // Calculate hour angle
-    let cos_ha =
-        (sin_alt - site_trig.sin_lat * dec_val.sin()) / (site_trig.cos_lat * dec_val.cos());
-    let sin_ha = -cos_alt * az.sin() / dec_val.cos();
+    // Calculate hour angle (both arguments carry the common factor cos(dec), so the
+    // quotient stays defined for an observer or a target at a pole)
+    let cos_ha = sin_alt * site_trig.cos_lat - cos_alt * az.cos() * site_trig.sin_lat;
+    let sin_ha = -cos_alt * az.sin();
     let ha_val = sin_ha.atan2(cos_ha);
 
     // Convert hour angle to right ascension
@@ -165,10 +167,10 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, Horizontal, U>>
             equatorial_to_horizontal_angles(ra.to::<Deg>(), dec.to::<Deg>(), site, &site_trig, jd);
 
         // Convert back to Cartesian in horizontal frame
-        // In horizontal: x = North, y = West, z = Zenith
+        // In horizontal: x = North, y = East, z = Zenith (azimuth runs North through East)
         // Trig functions return f64, multiply by Quantity<U> to get Quantity<U>
         let new_x = r * alt.cos() * az.cos();
-        let new_y = -r * alt.cos() * az.sin(); // negative for East-positive azimuth
+        let new_y = r * alt.cos() * az.sin();
         let new_z = r * alt.sin();
 
         cartesian::Position::from_array(*site, [new_x, new_y, new_z])
@@ -198,7 +200,7 @@ impl<U: LengthUnit> Transform<cartesian::Position<Topocentric, EquatorialMeanOfD
             Quantity::<Radian>::new(0.0)
         };
         // atan2 on Quantity<U> values - extract raw values for atan2
-        let az: Radians = Quantity::<Radian>::new((-self.y() / r).atan2(self.x() / r));
+        let az: Radians = Quantity::<Radian>::new((self.y() / r).atan2(self.x() / r));
 
         let site_trig = SiteTrig::from_site(site);
         let (ra, dec) = horizontal_to_equatorial_angles(alt, az, site, &site_trig, jd);
-- 
2.43.0


From 685673c48ec3920917551215ac68c6192e906daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 05/16] fix: a crossing that falls exactly on a scan sample is
 no longer missed

---
 src/event/search/intervals.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index d0881ca..ace55ea 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -103,7 +103,7 @@ where
         };
         let next_v = g(next_t);
 
-        if (prev < zero && next_v > zero) || (prev > zero && next_v < zero) {
+        if (prev <= zero && next_v > zero) || (prev > zero && next_v <= zero) {
             if let Some(root_t) =
                 root_finding::brent_with_values(Interval::new(t, next_t), prev, next_v, g)
             {
@@ -159,9 +159,9 @@ where
         };
         let next_v = g(next_t);
 
-        let direction = if prev < zero && next_v > zero {
+        let direction = if prev <= zero && next_v > zero {
             Some(1)
-        } else if prev > zero && next_v < zero {
+        } else if prev > zero && next_v <= zero {
             Some(-1)
         } else {
             None
-- 
2.43.0


From 6cf9cdf70e62c778123abed2c6bcd14e87bb95f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 06/16] fix: azimuth crossings no longer include the opposite
 bearing

---
 src/event/azimuth/events.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/event/azimuth/events.rs b/src/event/azimuth/events.rs
index 1ed108b..2e72e77 100644
--- a/src/event/azimuth/events.rs
+++ b/src/event/azimuth/events.rs
@@ -200,6 +200,15 @@ pub fn azimuth_crossings<T: AzimuthProvider>(
 
     labeled
         .iter()
+        // sin(az − bearing) also vanishes at the opposite bearing
+        .filter(|lc| {
+            let az = target.azimuth_at_with_policy(
+                observer,
+                lc.t,
+                crate::astro::apparent::CorrectionPolicy::APPARENT,
+            );
+            (az - bearing_rad).cos() > 0.0
+        })
         .map(|lc| AzimuthCrossingEvent {
             mjd: lc.t,
             direction: if lc.direction > 0 {
-- 
2.43.0


From 4750f899cec6aee1a113c73ab12dd6568c84c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 07/16] fix: a signal that touches its threshold on a scan
 sample no longer counts as crossing it

---
 src/event/search/crossings.rs     | 7 ++++++-
 src/event/search/intervals.rs     | 7 ++++++-
 src/event/search/scan_fallback.rs | 7 ++++++-
 src/event/solar/daily_events.rs   | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/event/search/crossings.rs b/src/event/search/crossings.rs
index 18a107e..20e06f7 100644
--- a/src/event/search/crossings.rs
+++ b/src/event/search/crossings.rs
@@ -457,7 +457,12 @@ fn looser_radius_exhausts_segment(center: f64, radius: f64, start: f64, end: f64
 
 fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // crossings at the same instant count once; entering and leaving at once is only a touch
+    *crossings = crossings
+        .chunk_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS)
+        .filter(|same| same[0].direction == same[same.len() - 1].direction)
+        .map(|same| same[0])
+        .collect();
 }
 
 #[cfg(test)]
diff --git a/src/event/search/intervals.rs b/src/event/search/intervals.rs
index ace55ea..c23e021 100644
--- a/src/event/search/intervals.rs
+++ b/src/event/search/intervals.rs
@@ -63,7 +63,12 @@ pub struct LabeledCrossing {
 
 fn sort_and_dedup_labeled_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap());
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < DEDUPE_EPS);
+    // crossings at the same instant count once; entering and leaving at once is only a touch
+    *crossings = crossings
+        .chunk_by(|a, b| (a.t.raw() - b.t.raw()).abs() < DEDUPE_EPS)
+        .filter(|same| same[0].direction == same[same.len() - 1].direction)
+        .map(|same| same[0])
+        .collect();
 }
 
 // ---------------------------------------------------------------------------
diff --git a/src/event/search/scan_fallback.rs b/src/event/search/scan_fallback.rs
index 0ae4ca4..0e4ce28 100644
--- a/src/event/search/scan_fallback.rs
+++ b/src/event/search/scan_fallback.rs
@@ -287,7 +287,12 @@ fn mjd_from_days(days: f64) -> Mjd {
 
 fn sort_dedup_crossings(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // crossings at the same instant count once; entering and leaving at once is only a touch
+    *crossings = crossings
+        .chunk_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS)
+        .filter(|same| same[0].direction == same[same.len() - 1].direction)
+        .map(|same| same[0])
+        .collect();
 }
 
 #[cfg(test)]
diff --git a/src/event/solar/daily_events.rs b/src/event/solar/daily_events.rs
index ae097af..cf93f30 100644
--- a/src/event/solar/daily_events.rs
+++ b/src/event/solar/daily_events.rs
@@ -951,7 +951,12 @@ pub(crate) fn solar_twilight_profile_impl(
 
 fn sort_dedup_labelled(crossings: &mut Vec<LabeledCrossing>) {
     crossings.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap_or(std::cmp::Ordering::Equal));
-    crossings.dedup_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS);
+    // crossings at the same instant count once; entering and leaving at once is only a touch
+    *crossings = crossings
+        .chunk_by(|a, b| (a.t.raw() - b.t.raw()).abs() < CROSSING_DEDUPE_EPS)
+        .filter(|same| same[0].direction == same[same.len() - 1].direction)
+        .map(|same| same[0])
+        .collect();
 }
 
 #[cfg(test)]
-- 
2.43.0


From f26357ceedad2a7c3bb8d212818fc762ace96def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 08/16] fix: occultation_fraction used the tangent-plane radius
 instead of a sphere's apparent radius asin(R/d)

---
 src/mission/geometry/occultation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mission/geometry/occultation.rs b/src/mission/geometry/occultation.rs
index b7463e6..3dad394 100644
--- a/src/mission/geometry/occultation.rs
+++ b/src/mission/geometry/occultation.rs
@@ -68,8 +68,9 @@ where
     if nt == 0.0 || no == 0.0 {
         return 0.0;
     }
-    let app_t = (tr / nt).atan(); // angular radius of target
-    let app_o = (or_ / no).atan(); // angular radius of occulter
+    // Apparent angular radius of a sphere (a hemisphere once inside it).
+    let app_t = (tr / nt).min(1.0).asin();
+    let app_o = (or_ / no).min(1.0).asin();
     let cos_sep = d_t.dot(&d_o).value() / (nt * no);
     let sep = cos_sep.clamp(-1.0, 1.0).acos();
     // Apparent target area
-- 
2.43.0


From bca1c967767a7c9e30406251efc9e9c2308c59cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 09/16] fix: TerrainMask::new sorted samples before wrapping
 azimuths into [0, 2pi)

---
 src/mission/geometry/terrain_mask.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mission/geometry/terrain_mask.rs b/src/mission/geometry/terrain_mask.rs
index 4d31e4d..f7976cd 100644
--- a/src/mission/geometry/terrain_mask.rs
+++ b/src/mission/geometry/terrain_mask.rs
@@ -19,12 +19,13 @@ pub struct TerrainMask {
 impl TerrainMask {
     /// Build a terrain mask from `(azimuth, elevation)` samples. Empty
     /// inputs produce a flat zero mask.
-    pub fn new(mut samples: Vec<(Radians, Radians)>) -> Self {
-        samples.sort_by(|a, b| a.0.value().partial_cmp(&b.0.value()).unwrap());
-        let s = samples
+    pub fn new(samples: Vec<(Radians, Radians)>) -> Self {
+        let mut s: Vec<(f64, f64)> = samples
             .into_iter()
             .map(|(a, e)| (a.value().rem_euclid(core::f64::consts::TAU), e.value()))
             .collect();
+        // Sort after wrapping into [0, 2π), so that interpolation brackets hold.
+        s.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
         Self { samples: s }
     }
 
-- 
2.43.0


From cab17770ebf3a636b99789d2a9713751a801a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 10/16] fix: NormalEquations::add_row panicked on an
 out-of-range index after a valid one, and left a rejected row partly
 accumulated

---
 src/pod/estimation/wls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pod/estimation/wls.rs b/src/pod/estimation/wls.rs
index b884caa..fb81d19 100644
--- a/src/pod/estimation/wls.rs
+++ b/src/pod/estimation/wls.rs
@@ -122,7 +122,7 @@ impl NormalEquations {
                 "residual must be finite (got {residual})"
             )));
         }
-        let w = 1.0 / (sigma * sigma);
+        // Validate the whole row before touching the accumulator.
         for &(i, hi) in partials {
             if i >= self.n {
                 return Err(WlsSolverError::InvalidIndex {
@@ -135,6 +135,9 @@ impl NormalEquations {
                     "partial at index {i} must be finite (got {hi})"
                 )));
             }
+        }
+        let w = 1.0 / (sigma * sigma);
+        for &(i, hi) in partials {
             // Accumulate into the upper triangle; symmetrise at solve time.
             self.b[(i, 0)] += w * hi * residual;
             for &(j, hj) in partials {
-- 
2.43.0


From b46bbddf9f63265028bfd3c1a4bc6ab03cfe44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 11/16] fix: CPR global decoding of an odd frame above 87
 degrees latitude (longitude was NaN)

---
 src/formats/adsb/cpr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 0b051bf..1e79912 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -123,7 +123,7 @@ pub fn decode_globally(
         let m = (lon0 as f64 * (nl_lat - 1.0) / 131_072.0 - lon1 as f64 * nl_lat / 131_072.0 + 0.5)
             .floor();
         (
-            dlon * (m.rem_euclid(nl_lat - 1.0) + lon1 as f64 / 131_072.0),
+            dlon * (m.rem_euclid((nl_lat - 1.0).max(1.0)) + lon1 as f64 / 131_072.0),
             lat_o,
         )
     } else {
-- 
2.43.0


From 0c4c3ac29079d1bcb7ed8c51b20d0216785fee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 12/16] fix: CPR local decoding across the antimeridian keeps
 longitudes above -180 degrees

---
 src/formats/adsb/cpr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formats/adsb/cpr.rs b/src/formats/adsb/cpr.rs
index 1e79912..e39f374 100644
--- a/src/formats/adsb/cpr.rs
+++ b/src/formats/adsb/cpr.rs
@@ -188,7 +188,13 @@ pub fn decode_locally(
     let d_lon = 360.0 / n_lon;
     let m = (ref_lon / d_lon - cpr_lon as f64 / 131_072.0 + 0.5).floor();
     let lon = d_lon * (m + cpr_lon as f64 / 131_072.0);
-    let lon = if lon >= 180.0 { lon - 360.0 } else { lon };
+    let lon = if lon >= 180.0 {
+        lon - 360.0
+    } else if lon < -180.0 {
+        lon + 360.0
+    } else {
+        lon
+    };
 
     Ok((Degrees::new(lat), Degrees::new(lon)))
 }
-- 
2.43.0


From 08d4b25da98546c40b29e43f010db3acb9019c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 13/16] fix: ADS-B velocity fields sent as not available are
 reported as such

---
 src/formats/adsb/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/formats/adsb/mod.rs b/src/formats/adsb/mod.rs
index f60d019..47cc410 100644
--- a/src/formats/adsb/mod.rs
+++ b/src/formats/adsb/mod.rs
@@ -384,9 +384,13 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
     // Sub-types 1 and 2: ground-speed-based velocity
     if sub_type == 1 || sub_type == 2 {
         let sign_ew: f64 = if (me[1] & 0x04) != 0 { -1.0 } else { 1.0 };
-        let v_ew = (((me[1] as u16 & 0x03) << 8) | me[2] as u16) as f64 - 1.0;
+        let raw_ew = ((me[1] as u16 & 0x03) << 8) | me[2] as u16;
+        let v_ew = raw_ew as f64 - 1.0;
         let sign_ns: f64 = if (me[3] & 0x80) != 0 { -1.0 } else { 1.0 };
-        let v_ns = (((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16) as f64 - 1.0;
+        let raw_ns = ((me[3] as u16 & 0x7F) << 3) | (me[4] >> 5) as u16;
+        let v_ns = raw_ns as f64 - 1.0;
+        // A raw component of zero means "no velocity information".
+        let velocity_available = raw_ew != 0 && raw_ns != 0;
 
         // Convert knots → m/s (1 knot = 0.514444 m/s)
         let scale: f64 = if sub_type == 2 { 4.0 } else { 1.0 };
@@ -394,7 +398,7 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
         let vns_mps = sign_ns * v_ns * scale * 0.514_444;
 
         let gs = (vew_mps * vew_mps + vns_mps * vns_mps).sqrt();
-        let heading = if v_ew == 0.0 && v_ns == 0.0 {
+        let heading = if !velocity_available || (v_ew == 0.0 && v_ns == 0.0) {
             None
         } else {
             let track_deg = vew_mps.atan2(vns_mps).to_degrees().rem_euclid(360.0);
@@ -403,14 +407,14 @@ pub fn decode_airborne_velocity(frame: &AdsbFrame) -> Result<AirborneVelocityMes
 
         // Vertical rate: bits 30–38 of ME
         let vr_sign: f64 = if (me[4] & 0x08) != 0 { -1.0 } else { 1.0 };
-        let vr_raw = (((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16) as f64 - 1.0;
-        let vr_fpm = vr_sign * vr_raw * 64.0; // feet per minute
+        let raw_vr = ((me[4] as u16 & 0x07) << 6) | (me[5] >> 2) as u16;
+        let vr_fpm = vr_sign * (raw_vr as f64 - 1.0) * 64.0; // feet per minute
         let vr_mps = vr_fpm * 0.00508; // fpm → m/s
 
         return Ok(AirborneVelocityMessage {
             heading,
-            ground_speed_mps: Some(MetersPerSecond::new(gs)),
-            vertical_rate_mps: Some(MetersPerSecond::new(vr_mps)),
+            ground_speed_mps: velocity_available.then(|| MetersPerSecond::new(gs)),
+            vertical_rate_mps: (raw_vr != 0).then(|| MetersPerSecond::new(vr_mps)),
         });
     }
     Err(FormatError::located(
-- 
2.43.0


From 656980babf5c1cb52bbe5eba34fd406f7dab5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 14/16] fix: permissive RINEX NAV parsing panicked on a body
 line with too few fields instead of skipping the record

---
 src/formats/rinex/nav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/rinex/nav.rs b/src/formats/rinex/nav.rs
index 9411b30..5f71202 100644
--- a/src/formats/rinex/nav.rs
+++ b/src/formats/rinex/nav.rs
@@ -333,7 +333,7 @@ pub fn parse_rinex_nav_with_mode(text: &str, mode: ParseMode) -> Result<RinexNav
         let parse_body = |idx: usize, expected: usize| -> Result<Vec<f64>, FormatError> {
             let (ln, text) = collected[i + idx];
             let vals = collect_floats(text, ln + 1)?;
-            if vals.len() < expected && mode == ParseMode::Strict {
+            if vals.len() < expected {
                 return Err(FormatError::located(
                     "RINEX 3.05 §6.5",
                     FileLocation::at_line(ln + 1),
-- 
2.43.0


From 8a234e16a88bce6009dcfda006e916f54985abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 15/16] fix: CRD normal points read the return rate from the
 peak column

---
 src/formats/ilrs/crd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formats/ilrs/crd.rs b/src/formats/ilrs/crd.rs
index b9a0c4d..1bb2c3e 100644
--- a/src/formats/ilrs/crd.rs
+++ b/src/formats/ilrs/crd.rs
@@ -416,7 +416,7 @@ fn parse_crd_impl(
                         .get(6)
                         .and_then(|s| s.parse::<f64>().ok())
                         .map(|ps| Meters::new(ps * 1e-12 * SPEED_OF_LIGHT_M_S / 2.0));
-                    let return_rate: Option<f64> = rest.get(9).and_then(|s| s.parse().ok());
+                    let return_rate: Option<f64> = rest.get(10).and_then(|s| s.parse().ok());
 
                     out.normal_points.push(NormalPoint {
                         seconds_of_day: Seconds::new(sod),
-- 
2.43.0


From ae15925f60487b2e510be122cf8d4bd282e15877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:10 +0000
Subject: [PATCH 16/16] fix: the relativistic GPS clock term entered the
 observation models with the sign of a receiver clock

---
 src/pod/observation/gnss_obs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pod/observation/gnss_obs.rs b/src/pod/observation/gnss_obs.rs
index 7a8807e..6ea815a 100644
--- a/src/pod/observation/gnss_obs.rs
+++ b/src/pod/observation/gnss_obs.rs
@@ -368,7 +368,8 @@ impl Observation for GnssPseudorangeObs {
             .gnss_satellite_clock_m(&self.prn, self.epoch)
             .value();
 
-        let modelled = rho_m + dt_r - dt_s + trop_m + iono_m + sagnac_m + rel_m;
+        // The relativistic term is part of the satellite clock.
+        let modelled = rho_m + dt_r - (dt_s + rel_m) + trop_m + iono_m + sagnac_m;
         Ok(self.measured_m.value() - modelled)
     }
 
@@ -502,7 +503,7 @@ impl Observation for GnssCarrierPhaseObs {
         let ambiguity_m = self.integer_ambiguity as f64 * wavelength_m;
 
         // Phase: L = ρ + c·(dt_r - dt_s) + T - I + λN
-        let modelled = rho_m + dt_r - dt_s + trop_m - iono_m + sagnac_m + rel_m + ambiguity_m;
+        let modelled = rho_m + dt_r - (dt_s + rel_m) + trop_m - iono_m + sagnac_m + ambiguity_m;
         let residual_m = self.measured_m.value() - modelled;
 
         Ok(PhaseResidual {
-- 
2.43.0

