From 43af63655f7a476d522dc1ddadbc74a6ae8af384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 01/12] fix: apply a TAI-UTC step from the first day of its
 month

dat.for selects the last entry with M >= 12*year + month; the strict
comparison used here returned the previous entry for the whole first month
of every step (e.g. 36 s instead of 37 s in January 2017).
---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 455abd8d1eca3a9a94b2a014d43e89744df9661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 02/12] fix: avoid integer overflow in the calendar conversions

GregorianDate::new() accepts years and from_julian() accepts Julian dates
(up to DJ_MAX) for which the 32-bit intermediate products overflow: debug
builds panicked and release builds returned wrong dates.
---
 crates/tofas/src/calendar.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..ecde49d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,7 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	let (year,month,day) = (year as i64,month as i64,day as i64);
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
@@ -106,7 +107,7 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	let jd = d as i64 + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -121,9 +122,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From 3d13f27bfafdbbf467cb7d53697da907ac6bb08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 03/12] fix: avoid integer overflow in delta_at for far future
 years

---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..252d495 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*(iy as i64) + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| (12*year + month) as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 9ecee887c2b436fcf89841d88b48140488dcf9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 04/12] fix: reject NaN Julian dates and fractions of day

The range checks were written so that a NaN passed them, which gave
an Ok result with an arbitrary date and a NaN time.
---
 crates/tofas/src/calendar.rs | 4 ++--
 crates/tofas/src/delta_at.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index ecde49d..2ea853f 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
@@ -141,7 +141,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 252d495..109f82f 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From 08485fac1da0225255db82be31dacf304fc401b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 05/12] fix: never return a fraction of day of 1 from
 from_julian

A tiny negative fraction plus one rounds to one, which gave the previous
day with a fraction of 1.0 and hence a time of 24:00:00.
---
 crates/tofas/src/calendar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 2ea853f..8249c2b 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,9 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    if f >= 1.0 {
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = d as i64 + 1;
-- 
2.43.0


From 66d4a86ff3366d72873900ab9847ec646b2f7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 06/12] fix: keep anp() within its documented half-open range

A tiny negative angle plus two pi rounds to two pi.
---
 crates/tofas/src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..2da0d9e 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,9 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	if w >= TWO_PI {
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From 54c7da04ee1e22a7b0ccbd1e9bcdff7d4c1cf31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 07/12] fix: do not return NaN for the angle between parallel
 vectors

The dot product of two normalized vectors can exceed one by rounding.
---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 2da0d9e..7d482a1 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -87,7 +87,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From f41cd48f45774ae853637907d5ffeefe44afc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 08/12] fix: reject a zero or NaN radius and a NaN flattening

gc2gde.for and gd2gce.for reject A <= 0; such an ellipsoid gave NaN
coordinates.
---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..93eeee2 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -125,11 +125,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0


From 603b7783e98c2518b181603aa0fb7a8eb148a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 09/12] fix: keep the north pole in the northern hemisphere

Converting a geodetic latitude of +90 degrees to Geodetic360 gave -90,
the opposite pole, also in the printed form. A longitude just below -180
degrees gave +180, outside the documented [-180,180[.
---
 crates/tofas/src/ellipsoid.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 93eeee2..b12ba03 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,16 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	// rem_euclid() may round up to its modulus
+	let lon = if lon >= 180.0 { -180.0 } else { lon };
+	// +90 is the north pole and must not wrap to the south pole
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if -90.0 <= lat && lat <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 0895cec5f2ef94b3d5cdef2a6210d11babec2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 10/12] fix: carry when a printed time of day rounds up to 60
 seconds

A fraction of day of 0.3 printed as 07:11:60.000000 instead of
07:12:00.000000.
---
 crates/tofas/src/calendar.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index 8249c2b..f90cdd7 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -180,7 +180,20 @@ impl GregorianDateHMS {
 
 impl Display for HMS {
     fn fmt(&self,f:&mut Formatter<'_>)->Result<(),std::fmt::Error> {
-	write!(f,"{:02}:{:02}:{:0>9.6}",self.hour,self.minute,self.second)
+	let mut hour = self.hour as u32;
+	let mut minute = self.minute as u32;
+	let mut second = self.second;
+	// Carry if the second would be rounded up to 60 when printed;
+	// leave an actual second 60 (leap second) alone.
+	if second < 60.0 && round(second*1e6) >= 60e6 {
+	    second = 0.0;
+	    minute += 1;
+	    if minute == 60 {
+		minute = 0;
+		hour += 1;
+	    }
+	}
+	write!(f,"{:02}:{:02}:{:0>9.6}",hour,minute,second)
     }
 }
 
-- 
2.43.0


From 5e43b36b751e32da4ec25dd854a6641712868ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:27 +0000
Subject: [PATCH 11/12] fix: compute the sun angle during a leap second

A time of 23:59:60.5 at the end of 2016-12-31 gives a fraction of day
above one, which delta_at() refuses, so SunAngleCalculator::new()
panicked. The TAI-UTC of the day that ends applies.
---
 crates/tofas_extras/src/sun_angle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/tofas_extras/src/sun_angle.rs b/crates/tofas_extras/src/sun_angle.rs
index c214acb..4113cc4 100644
--- a/crates/tofas_extras/src/sun_angle.rs
+++ b/crates/tofas_extras/src/sun_angle.rs
@@ -128,7 +128,9 @@ impl SunAngleCalculator {
 
 	let fr = time.to_fraction_of_day();
 	let (jd0,jd1_date) = date.to_julian();
-	let dat = date.delta_at(fr).expect("Delta AT error").unwrap_or(0.0);
+	// During a leap second the fraction of day exceeds one
+	let fr_dat = if fr < 1.0 + 1.0/86400.0 { fr.min(1.0) } else { fr };
+	let dat = date.delta_at(fr_dat).expect("Delta AT error").unwrap_or(0.0);
 
 	let wgs84 = EllipsoidConverter::new(&WGS84).expect("Invalid ellipsoid");
 	let p_gd : Geodetic = position.into();
-- 
2.43.0


From 5b04a353e59de38357617396b54f5f63a2533147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 12/12] fix: converting a position with a non-finite angle to
 degrees panicked in debug builds

---
 crates/tofas/src/ellipsoid.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index b12ba03..b8ec6f1 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -64,8 +64,9 @@ impl From<&Geodetic> for Geodetic360 {
 	    } else {
 		(lat + 90.0).rem_euclid(180.0) - 90.0
 	    };
-	debug_assert!(-180.0 <= lon && lon <= 180.0);
-	debug_assert!(-90.0 <= lat && lat <= 90.0);
+	// Angles that are not finite give NaN
+	debug_assert!(!(lon < -180.0 || lon > 180.0));
+	debug_assert!(!(lat < -90.0 || lat > 90.0));
 	Self {
 	    lat,
 	    lon,
-- 
2.43.0

