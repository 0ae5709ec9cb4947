//! C28: no call with documented inputs panics; finite inputs in range give
//! finite results.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::calendar::{GregorianDate, GregorianDateHMS, HMS};
use tofas::common::{Mat3, Vec3, Matrix, Vector, anp};
use tofas::delta_at::DeltaAt;
use tofas::earth::{polar_motion_matrix, rotation_angle, EarthPosVel};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, Geodetic, Geodetic360, WGS84};
use tofas::time::{TAI, TDB, TT, UT1, UTC};
use tofas::{frames, fundargs, locator};
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleResultBundle};

fn extremes() -> Vec<f64> {
    let mut v = vec![f64::NAN, f64::INFINITY];
    for x in [0.0, 5e-324, 2.2250738585072014e-308, 1e-300, 1e-160, 1e-30, 1e-16, 1e-9, 1e-3, 0.25, 0.5, 0.9999999999999999, 1.0, 1.5, 10.0, 59.0, 60.0, 90.0, 180.0, 360.0, 366.0, 1e3, 32000.0, 68569.0, 86400.0, 1e5, 2400000.5, 2451545.0, 5e6, 1e7, 2147483647.0, 2147483648.0, 4294967296.0, 1e9, 1e10, 9007199254740992.0, 9.3e18, 1.9e19, 1e30, 1e100, 1e154, 1e200, 1e308, f64::MAX, PI, PI / 2.0, TAU] {
        v.push(x);
    }
    let mut w: Vec<f64> = v.iter().flat_map(|x| [*x, -*x]).collect();
    w.extend(dict::around(-1e12, 1e12, &[&|x| x]));
    w
}

fn sink<T: std::fmt::Debug>(x: T, c: &mut Ctx) {
    c.step();
    std::hint::black_box(x);
}

fn fin(nm: &str, a: f64, b: f64, xs: &[f64]) -> Res {
    for x in xs {
        ensure!(x.is_finite(), format!("{nm} {a:?} {b:?}"), "{nm} of {a:?}, {b:?} contains {x:?}");
    }
    Ok(())
}

fn flat(m: &Mat3) -> [f64; 9] {
    std::array::from_fn(|k| m[k / 3][k % 3])
}

pub fn c28(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let xs = extremes();
    let n = xs.len();
    {
        let xs = xs.clone();
        v.push(family("numbers", format!("all pairs of {n} numbers (NaN, infinities, signed zeros, subnormals, powers, bounds, source literals) given to every function of one or two numbers: no panic"), n, move |i, c| {
            let a = xs[i];
            for &b in &xs {
                sink(GregorianDate::from_julian(a, b).map(|r| (r.0.to_string(), HMS::from_fraction_of_day(r.1).map(|h| h.to_string()))), c);
                sink(GregorianDateHMS::from_julian(a, b).map(|r| (r.to_string(), r.to_julian())), c);
                sink(TT::from_ut1(UT1((a, b)), 69.0).total(), c);
                sink(UT1::from_tt(TT((a, b)), 69.0).total(), c);
                sink(TAI::from_utc_delta_at(UTC((a, b)), 37.0).total(), c);
                sink(TT::from(TAI((a, b))).total() + UTC((a, b)).total(), c);
                sink(TDB::from_tt(TT((a, b)), b).0, c);
                sink(TT::from_ut1(UT1((2451545.0, b)), a).0, c);
                sink(rotation_angle(UT1((a, b))), c);
                sink(frames::precession_rate(TT((a, b))), c);
                sink(frames::mean_obliquity(TT((a, b))), c);
                sink(frames::nutation_matrix(0.4, a, b), c);
                sink(polar_motion_matrix(a, b, 0.0), c);
                sink(Mat3::rotation(i % 3, b), c);
                let (p, q): (Vec3, Vec3) = ([a, b, 1.0], [b, 1.0, a]);
                sink((p.norm(), p.normalize(), p.dot(q), p.angle(q), p.add(q), p.sub(q), p.scale(b), p.neg()), c);
                sink(frames::celestial_to_intermediate_from_xys(a, b, 0.0), c);
                c.state();
            }
            sink(anp(a), c);
            sink([fundargs::l03(a), fundargs::lp03(a), fundargs::f03(a), fundargs::d03(a), fundargs::om03(a), fundargs::ve03(a), fundargs::e03(a), fundargs::pa03(a)], c);
            sink(HMS::from_fraction_of_day(a), c);
            for (y, m, d) in [(2007, 4, 5), (1965, 12, 31), (1972, 1, 1), (i32::MAX, 12, 31), (-4799, 1, 1)] {
                sink(GregorianDate::new(y, m, d).map(|g| g.delta_at(a)), c);
            }
            for h in [0u8, 23, 24, 255] {
                for s in [0u8, 59, 60, 255] {
                    let t = HMS::new(h, s, a);
                    sink(t.to_fraction_of_day(), c);
                    sink(t.to_string(), c);
                }
            }
            c.traces += 1;
            c.note(|| format!("{a:?} with all {n}"));
            Ok(())
        }));
    }
    {
        let xs: Vec<f64> = xs.iter().copied().step_by(if thorough { 1 } else { 2 }).collect();
        let n = xs.len();
        v.push(family("dates", format!("all pairs of {n} of these as two-part dates given to the series (ephemeris, nutation, frames, locator): no panic"), n, move |i, c| {
            let a = xs[i];
            for &b in &xs {
                sink(EarthPosVel::from(TDB((a, b))), c);
                sink(frames::nutation(TT((a, b))), c);
                sink(frames::celestial_to_terrestrial(TT((a, b)), UT1((b, a)), 0.0, 0.0), c);
                sink(locator::cio(TT((a, b)), 0.0, 1.0), c);
                c.state();
            }
            c.traces += 1;
            Ok(())
        }));
    }
    v.push(family("finite_dates", "dates every 50 days within 2000 years of J2000 x 14 two-part forms: every date function finite", 29220, |i, c| {
        let d = i as f64 * 50.0 - 730500.0 + 0.37;
        let (a, b) = super::astro::split(d, i % super::astro::N_SPLIT);
        let (tt, ut) = (TT((a, b)), UT1((a, b)));
        let e = EarthPosVel::from(TDB((a, b)));
        fin("ephemeris", a, b, &[e.heliocentric.p, e.heliocentric.v, e.barycentric.p, e.barycentric.v].concat())?;
        fin("rotation angle", a, b, &[rotation_angle(ut)])?;
        let (x, y) = frames::nutation(tt);
        fin("nutation", a, b, &[x, y, frames::mean_obliquity(tt), locator::cio(tt, 0.1, 0.1)])?;
        fin("intermediate matrix", a, b, &flat(&frames::celestial_to_intermediate(tt)))?;
        fin("terrestrial matrix", a, b, &flat(&frames::celestial_to_terrestrial(tt, ut, 1e-6, 1e-6)))?;
        fin("precession-nutation", a, b, &flat(&frames::precession_nutation(tt)))?;
        c.state();
        c.transitions += 6;
        c.outcome(x);
        Ok(())
    }));
    // geodesy
    {
        let xs: Vec<f64> = extremes();
        let n = xs.len();
        v.push(family("positions", format!("positions built from pairs of {n} numbers, finite or not, in every coordinate: no panic; finite results up to 1e9 m; text for all"), n, move |i, c| {
            let k = EllipsoidConverter::new(&WGS84).ok().unwrap();
            let a = xs[i];
            for &b in &xs {
                for g in [Geodetic { elong: a, phi: b, height: 0.0 }, Geodetic { elong: a, phi: 0.5, height: b }, Geodetic { elong: 1.0, phi: a, height: b }] {
                    let r = k.geodetic_to_geocentric(&g).ok();
                    c.step();
                    if g.height.abs() < 1e9 && a.is_finite() && b.is_finite() {
                        let Some(p) = r else { bail!(format!("{g:?}"), "{g:?} rejected") };
                        fin("geocentric position", a, b, &p)?;
                        fin("zenith", a, b, &g.zenith())?;
                    }
                    let d = Geodetic360::from(g);
                    if a.abs() < 1e300 && b.abs() < 1e300 {
                        fin("degrees", a, b, &[d.lon, d.lat, d.height])?;
                    }
                    let q = Geodetic360 { lon: g.elong, lat: g.phi, height: g.height };
                    let r = Geodetic::from(q);
                    sink((g.to_string(), d.to_string(), g.zenith(), q.to_string(), r.to_string(), r.zenith()), c);
                }
                for p in [[a, b, 0.0], [a, 0.0, b], [0.0, a, b], [6378137.0, a, b], [a, b, 6356752.0], [a, b, -a]] {
                    let g = k.geocentric_to_geodetic(&p);
                    c.step();
                    let r = p[0].hypot(p[1]).hypot(p[2]);
                    if r > 6e6 && r < 1e9 {
                        fin("geodetic position", a, b, &[g.elong, g.phi, g.height])?;
                    }
                }
                sink(EllipsoidConverter::new(&Ellipsoid { a, f: b }).map(|e| e.geocentric_to_geodetic(&[1.0, 2.0, 3.0])).ok(), c);
                c.state();
            }
            c.traces += 1;
            Ok(())
        }));
    }
    // calendar fields
    let ints: Vec<i64> = {
        let mut v = vec![];
        for b in [0i64, 12, 28, 31, 60, 100, 365, 1000, 4800, 32767, 65536, 178956970, 357913941, 536870911, i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 + 4800] {
            for e in -3..=3 {
                v.extend([b + e, -b + e]);
            }
        }
        v.extend(dict::ints().into_iter().flat_map(|x| [x, -x]));
        v.retain(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64);
        v.sort();
        v.dedup();
        v
    };
    let ni = ints.len();
    let ints2 = ints.clone();
    v.push(family("fields", format!("{ni} years x months -2..14 x days -2..33: construct; accepted dates convert, print and give TAI-UTC"), ni, move |i, c| {
        for m in -2..=14 {
            for d in -2..=33 {
                c.state();
                c.step();
                if let Ok(g) = GregorianDate::new(ints[i] as i32, m, d) {
                    sink((g.to_julian(), g.to_string(), g.delta_at(0.5)), c);
                    let s = GregorianDateHMS { date: g, hms: HMS::new(23, 59, 59.9999999) };
                    sink((s.to_string(), s.to_julian()), c);
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    {
        let ints = ints2;
        v.push(family("raw_fields", format!("dates made directly of {ni} years x {ni} months x 12 days, and of {ni} days x 12 months x 40 years, existing or not: convert, print and give TAI-UTC without overflow"), ni, move |i, c| {
            let small = [0, 1, 2, 12, 13, 31, -1, 366, i32::MAX, i32::MIN, 65536, -65536];
            let mut one = |year: i32, month: i32, day: i32| {
                let g = GregorianDate { year, month, day };
                c.state();
                sink((g.to_julian(), g.to_string(), g.delta_at(1.0)), c);
                sink(GregorianDate::new(year, month, day), c);
                sink(GregorianDateHMS { date: g, hms: HMS::new(0, 0, 0.0) }.to_julian(), c);
            };
            for &m in &ints {
                for d in small {
                    one(ints[i] as i32, m as i32, d);
                }
            }
            for y in ints.iter().step_by(ni / 40 + 1) {
                for m in small {
                    one(*y as i32, m, ints[i] as i32);
                }
            }
            c.traces += 1;
            Ok(())
        }));
    }
    // ordinary arguments
    v.push(family("every_tenth", "every tenth of a second of the day, and every second with 0.5 and the floats beside it, as fraction of day and as time of day: convert both ways and print", 86400, |i, c| {
        for k in 0..10 {
            let f = (i as f64 + k as f64 / 10.0) / 86400.0;
            for f in [f, f.next_down().max(0.0), f.next_up()] {
                sink(HMS::from_fraction_of_day(f).map(|t| (t.to_string(), t.to_fraction_of_day())), c);
            }
            c.state();
        }
        let (h, m) = ((i / 3600) as u8, (i / 60 % 60) as u8);
        for s in [0.0, 0.5, 0.1, 0.9, 0.9999999] {
            let t = HMS::new(h, m, (i % 60) as f64 + s);
            sink((t.to_string(), t.to_fraction_of_day()), c);
        }
        Ok(())
    }));
    v.push(family("every_day", "every day of MJD -2432000 to 3000000: calendar date, stamp, Julian date, TAI-UTC at six fractions, in two forms", 5433, |i, c| {
        for k in 0..1000 {
            let mjd = (i as i64 * 1000 + k - 2_432_000) as f64;
            for (a, b) in [(2400000.5, mjd), (2400000.5 + mjd, 0.5)] {
                sink(GregorianDateHMS::from_julian(a, b).map(|s| (s.to_julian(), if k % 16 == 0 { s.to_string() } else { String::new() })), c);
            }
            if let Ok((g, _)) = GregorianDate::from_julian(2400000.5, mjd) {
                sink((g.to_julian(), [0.0, 1e-9, 0.25, 0.5, 0.75, 1.0].map(|f| g.delta_at(f).ok())), c);
            }
            c.state();
        }
        Ok(())
    }));
    v.push(family("ordinary_dates", "every day 1800-2200 at a varying time in a varying two-part form: every date function", 14611, |i, c| {
        for k in 0..10 {
            let d = (i * 10 + k) as f64 - 73000.0 + [0.0, 0.5, 0.25, 0.734][(i + k) % 4];
            let (a, b) = super::astro::split(d, (i * 3 + k) % super::astro::N_SPLIT);
            let (tt, ut) = (TT((a, b)), UT1((a, b)));
            if k % 5 == i % 5 {
                sink(EarthPosVel::from(TDB((a, b))), c);
            }
            let m = frames::celestial_to_terrestrial(tt, ut, 1e-6, -1e-6);
            let pn = frames::PrecessionNutation::from(tt);
            sink((m, pn, rotation_angle(ut), frames::precession_rate(tt), frames::bias_and_precession(tt), locator::cio(tt, m[2][0], m[2][1])), c);
            sink((TT::from_ut1(ut, 60.0), UT1::from_tt(tt, 60.0), TAI::from_utc_delta_at(UTC((a, b)), 37.0), TT::from(TAI((a, b))), TDB::from_tt(tt, 1e-3)), c);
            c.state();
        }
        Ok(())
    }));
    v.push(family("ordinary_positions", "latitudes every half degree and longitudes every 1.25 degrees to 720 (exact radians for multiples of 30) x 8 heights: every conversion and text, both ways", 361 * 2, |i, c| {
        let lat = (i / 2) as f64 * 0.5 - 90.0;
        let k = EllipsoidConverter::new(&WGS84).ok().unwrap();
        for j in 0..577 {
            let lon = (j as f64 - 288.0) * if i % 2 == 0 { 1.25 } else { 2.5 };
            for ht in [0.0, -0.0, 100.0, -100.0, -6000.0, 8848.86, 4e5, 3.6e7] {
                let q = Geodetic360 { lon, lat, height: ht };
                let g = Geodetic::from(q);
                // the same angles formed otherwise, which may differ in the last bit
                for g in [g, Geodetic { elong: lon / 180.0 * PI, phi: lat / 180.0 * PI, height: ht }] {
                    let d = Geodetic360::from(g);
                    let p = k.geodetic_to_geocentric(&g).ok();
                    let b = p.map(|p| k.geocentric_to_geodetic(&p));
                    sink((d, p, b, b.map(Geodetic360::from), g.zenith()), c);
                    c.state();
                }
                if j % 8 == 0 {
                    sink((q.to_string(), g.to_string()), c);
                }
            }
        }
        Ok(())
    }));
    v.push(family("ordinary_vectors", "all pairs of a 9^3 lattice of vectors, the matrices of them, and angles every hundredth of a turn to 20 turns: every operation", 729, |i, c| {
        let l = |i: usize| -> Vec3 { std::array::from_fn(|k| (i / [1, 9, 81][k] % 9) as f64 - 4.0) };
        let a = l(i);
        for j in 0..729 {
            let b = l(j);
            sink((a.norm(), a.normalize(), a.dot(b), a.angle(b), a.add(b), a.sub(b), a.scale(b[0]), a.neg()), c);
            let (m, n): (Mat3, Mat3) = ([a, b, a.add(b)], [b, a, b.sub(a)]);
            sink((m.compose(&n), m.compose(&m), m.transpose(), m.apply(b)), c);
            sink(frames::celestial_to_intermediate_from_xys(a[0] / 10.0, b[0] / 10.0, a[1]), c);
            c.state();
        }
        for k in 0..3 {
            let x = (i as f64 + k as f64 / 3.0 - 364.0) * TAU / 36.0;
            sink((anp(x), Mat3::rotation(k, x), frames::nutation_matrix(x, 1e-5, x), polar_motion_matrix(x, 0.0, -x)), c);
        }
        Ok(())
    }));
    // calculator
    let ys: Vec<i64> = vec![-4799, -1000, 0, 1, 1000, 1582, 1800, 1900, 1959, 1960, 1965, 1971, 1972, 2000, 2007, 2016, 2017, 2030, 2100, 2500, 9999, 100_000, 2_000_000, 2_147_483_647];
    v.push(family("calculator", format!("{} years x 12 months x first and last day x 8 times (a leap second too) x 14 places x 7 offsets: no panic, finite results for years 0-4000", ys.len()), ys.len() * 12, move |i, c| {
        let (y, m) = (ys[i / 12], (i % 12 + 1) as i64);
        let de = c.pick(&[0.0, -86400.0, 86400.0, 1e-300, 1e7, -1e9, 0.1]);
        for d in [1, month_len(y, m)] {
            for (h, mi, s) in [(0, 0, 0.0), (23, 59, 59.9999999), (12, 0, 0.0), (0, 0, 5e-324), (23, 59, 59.0), (6, 6, 6.6), (23, 59, 60.0), (23, 59, 60.999999)] {
                for (lat, lon, ht) in [(0.0, 0.0, 0.0), (90.0, 180.0, 0.0), (-90.0, -180.0, -5000.0), (45.0, 720.0, 1e9), (1e-300, -1e-300, 1e-300), (89.99999999999999, 179.99999999999997, 8848.0), (-0.0, -0.0, -0.0), (33.3, -1e6, 1.0), (-45.0, 1e300, 1.0), (45.0, 1.0, -6356752.0), (0.0, 0.0, -6378137.0), (91.0, 0.0, 0.0), (1e5, 0.0, 0.0), (90.0, 0.0, -6356752.314245179)] {
                    let p = super::sun::params(y, m, d, h, mi, s, lat, lon, ht);
                    let k = SunAngleCalculator::new(&p);
                    let r = k.compute(de);
                    sink(SunAngleResultBundle { parameters: &p, result: &r }.to_string(), c);
                    c.state();
                    if (0..=4000).contains(&y) {
                        fin("sun result", y as f64, de, &[r.sza, r.era, r.sun_e[0], r.sun_e[1], r.sun_e[2], r.earth[0], r.p[0], r.p[2]])?;
                        ensure!(r.sza >= 0.0 && r.sza <= PI, format!("{y} {m} {de}"), "zenith angle {:?} at {p:?} {de}", r.sza);
                        c.outcome(r.sza);
                    }
                }
            }
        }
        Ok(())
    }));
    v.push(family("ordinary_calculators", "every day 1900-2100 x 3 times of day (whole and half seconds), 48 places and offsets in turn: new, compute and report, finite", 73049, |i, c| {
        let d = Day::from_mjd(15020 + i as i64);
        for k in 0..3usize {
            let j = i * 3 + k;
            let s = (j * 7919) % 86400;
            let lat = (j * 37 % 181) as f64 - 90.0;
            let lon = (j * 53 % 721) as f64 * 0.5 - 180.0;
            let p = super::sun::params(d.y, d.m, d.d, (s / 3600) as u8, (s / 60 % 60) as u8, (s % 60) as f64 + [0.0, 0.5, 0.0, 0.123][j % 4], lat, lon, [0.0, -430.0, 8848.0][k]);
            let r = SunAngleCalculator::new(&p).compute([0.0, 0.5, 3600.0, -3600.0, 86400.0 - s as f64, -(s as f64)][j % 6]);
            if j % 4 == 0 {
                sink(SunAngleResultBundle { parameters: &p, result: &r }.to_string(), c);
            }
            c.state();
            c.step();
            fin("sun result", i as f64, k as f64, &[r.sza, r.era, r.sun_e[0], r.sun_e[1], r.sun_e[2], r.earth[0], r.p[0], r.p[2]])?;
            ensure!(r.sza >= 0.0 && r.sza <= PI, format!("{} {k}", d.mjd), "zenith angle {:?} at {p:?}", r.sza);
        }
        Ok(())
    }));
    v
}
