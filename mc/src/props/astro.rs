//! C17-C24: Earth ephemeris, Earth rotation, precession-nutation, CIO, frames.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::ensure;
use tofas::calendar::GregorianDate;
use tofas::common::Mat3;
use tofas::earth::{polar_motion_matrix, rotation_angle, EarthPosVel, AUM};
use tofas::time::{TAI, TDB, TT, UT1, UTC};
use tofas::{frames, fundargs, locator};

pub const N_SPLIT: usize = 20;
/// Two-part forms of J2000 + d.  What is denoted is the exact sum of the parts.
pub fn split(d: f64, k: usize) -> (f64, f64) {
    let (a, b) = match k / 2 {
        0 => (J2000, d),
        1 => (MJD0, d + 51544.5),
        2 => (J2000 + d, 0.0),
        3 => {
            let n = (d - 0.5).floor() + 0.5;
            (J2000 + n, d - n)
        }
        4 => {
            let n = (d + 0.5).floor();
            (J2000 + n, d - n)
        }
        5 => (J2000 - 0.5, d + 0.5),
        6 => (2400000.0, d + 51545.0),
        7 => (-12345.25, (J2000 + 12345.25) + d),
        8 => (3000000.125, d - 548455.125),
        _ => ((J2000 + d) / 2.0, (J2000 + d) / 2.0),
    };
    if k % 2 == 0 {
        (a, b)
    } else {
        (b, a)
    }
}

/// Rounding, in days, of reducing the two parts to days from J2000.
pub fn dtol(a: f64, b: f64) -> f64 {
    let s = (a - J2000).abs() + ((a - J2000) + b).abs();
    s * 3e-16
}

/// Days from J2000 for the source literals read as Julian dates, modified
/// Julian dates, day counts, years and centuries.
fn lit_days(lim: f64) -> Vec<f64> {
    dict::around(-lim, lim, &[&|x| x, &|x| x - J2000, &|x| x - 51544.5, &|x| x * 365.25, &|x| x * 36525.0, &|x| (x - 2000.0) * 365.25])
}

fn clock(c: &mut Ctx, n: usize) -> f64 {
    const F: [f64; 12] = [0.0, 0.5, 0.25, 0.000001, 0.999999, 0.123456789, 0.75, 0.3333333, 0.49999999, 0.50000001, 0.6, 0.9];
    let k = c.choose(n);
    // beyond the list, spread evenly and off the round values
    F.get(k).copied().unwrap_or_else(|| (k as f64 + 0.37) / n as f64)
}

/// Days with every minute of the day (and a sliver before midnight): day
/// number i of n spread over [-lim,lim] days from J2000.
fn minutes(i: usize, n: usize, lim: f64) -> impl Iterator<Item = f64> {
    let d = (-lim + 2.0 * lim * i as f64 / n as f64).floor() + 0.5 * (i % 2) as f64;
    (0..=1440).map(move |m| d + if m == 1440 { 1.0 - 1e-9 } else { m as f64 / 1440.0 + if m % 7 == 3 { 3.217e-4 } else { 0.0 } })
}

/// Days from J2000 through the millennia: every 30 days of two millennia
/// either side, every 137 days of 137 centuries either side, powers of ten.
fn far_days() -> Vec<f64> {
    let mut v: Vec<f64> = (-24350i64..=24350).map(|k| k as f64 * 30.0 + golden(k)).collect();
    v.extend((-36500i64..=36500).map(|k| k as f64 * 137.0 + golden(3 * k)));
    for e in 0..=6 {
        for m in [1.0, 2.0, 3.0, 4.0, 5.0] {
            v.extend([m * 10f64.powi(e), -m * 10f64.powi(e)]);
        }
    }
    v.retain(|d| d.abs() < 5.01e6);
    v
}
const FAR: &str = "every 30 days of two millennia and every 137 days of 137 centuries either side of J2000, powers of ten";

/// A time of day that differs from day to day.
fn golden(i: i64) -> f64 {
    (i as f64 * 0.618033988749895).rem_euclid(1.0)
}

// ------------------------------------------------------------------- C17

fn epv_of(a: f64, b: f64) -> EarthPosVel {
    TDB((a, b)).into()
}

fn epv_point(a: f64, b: f64, c: &mut Ctx) -> Res {
    let d = days_j2000(a, b);
    let e = epv_of(a, b);
    let w = epv(d);
    c.state();
    c.step();
    let far = 1.0 + (d / 36525.0).abs() + (d / 36525.0).powi(2);
    // ten times what the arguments' and sums' rounding comes to
    let y = (d / 365.25).abs();
    let tp = (4e-14 + 5e-15 * y).min(4e-13 * far) + 0.018 * dtol(a, b);
    let tv = (2e-15 + 2e-16 * y).min(2e-14 * far) + 0.0004 * dtol(a, b);
    for (nm, g, m, t) in [
        ("heliocentric position", &e.heliocentric.p, &w.hp, tp),
        ("heliocentric velocity", &e.heliocentric.v, &w.hv, tv),
        ("barycentric position", &e.barycentric.p, &w.bp, tp),
        ("barycentric velocity", &e.barycentric.v, &w.bv, tv),
    ] {
        ensure!(vdiff(g, m) <= t, format!("{a:?},{b:?}"), "{nm} at JD {a:?}+{b:?} is {g:?}, expected {m:?} (tolerance {t:e})");
    }
    c.outcome(e.heliocentric.p[0]);
    Ok(())
}

pub fn c17(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (lo, hi) = (-43830i64, 43830i64); // 1880-2120
    let nf = if thorough { 96 } else { 4 };
    v.push(family("every_day", format!("every day from 1880 to 2120 x {nf} times of day, two-part form varying with the day, against the tabulated theory"), (hi - lo) as usize, move |i, c| {
        let f = clock(c, nf);
        let (a, b) = split((lo + i as i64) as f64 + f, i % N_SPLIT);
        epv_point(a, b, c)?;
        c.note(|| format!("TDB {a:?}+{b:?}"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("other_times", "every day from 1600 to 2400, at a time of day and in a two-part form differing from day to day", 292200, |i, c| {
        let d = i as i64 - 146100;
        let (a, b) = split(d as f64 + golden(d), i % N_SPLIT);
        epv_point(a, b, c)
    }));
    let nm = if thorough { 10000 } else { 100 };
    v.push(family("every_minute", format!("every minute of {nm} days spread over 1880-2120, two-part form varying"), nm, move |i, c| {
        for (k, d) in minutes(i, nm, 43830.0).enumerate() {
            let (a, b) = split(d, k % N_SPLIT);
            epv_point(a, b, c)?;
        }
        Ok(())
    }));
    let n = if thorough { 20000 } else { 800 };
    v.push(family("splits", format!("{n} days spread over 1880-2120 x {N_SPLIT} two-part forms x 2 times of day"), n, move |i, c| {
        let k = c.choose(N_SPLIT);
        let d = -43830.0 + (i as f64 * 87660.0 / n as f64).floor() + clock(c, 2);
        let (a, b) = split(d, k);
        epv_point(a, b, c)
    }));
    let ld = lit_days(50000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals x {N_SPLIT} two-part forms"), nl, move |i, c| {
        let k = c.choose(if thorough { N_SPLIT } else { 4 });
        let (a, b) = split(ld[i], k);
        epv_point(a, b, c)
    }));
    v.push(family("near_epoch", "every 1/16 day within 20 years of J2000, where rounding is least", 234_000, |i, c| epv_point(J2000, (i as f64 - 117_000.0) / 16.0, c)));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}), two-part form varying: the series evaluated far outside its range still follows the tables"), nfd, move |i, c| {
        let (a, b) = split(fd[i], (i + i / N_SPLIT) % N_SPLIT);
        epv_point(a, b, c)
    }));
    v.push(family("centuries", "years -4000 to 8000 every 10 years: the series evaluated far outside its range still follows the tables", 1200, |i, c| {
        let d = (i as f64 * 10.0 - 6000.0) * 365.25;
        let e = epv_of(J2000, d);
        let w = epv(d);
        c.state();
        c.step();
        let t = 1e-11 * (1.0 + (d / 365250.0).powi(2));
        ensure!(vdiff(&e.heliocentric.p, &w.hp) <= t && vdiff(&e.barycentric.p, &w.bp) <= t, format!("{d}"), "position {d} days from J2000: {:?}, expected {:?}", e.heliocentric.p, w.hp);
        ensure!(vdiff(&e.heliocentric.v, &w.hv) <= t && vdiff(&e.barycentric.v, &w.bv) <= t, format!("{d}"), "velocity {d} days from J2000: {:?}, expected {:?}", e.heliocentric.v, w.hv);
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C18

fn kinematics(d: f64, c: &mut Ctx) -> Res {
    let h = 0.01;
    let e = epv_of(J2000, d);
    let p = epv_of(J2000, d + h);
    let m = epv_of(J2000, d - h);
    c.state();
    c.transitions += 3;
    let key = format_args!("{d}");
    for (nm, x, y, z) in [("heliocentric", &e.heliocentric, &p.heliocentric, &m.heliocentric), ("barycentric", &e.barycentric, &p.barycentric, &m.barycentric)] {
        let dv: V = std::array::from_fn(|k| (y.p[k] - z.p[k]) / (2.0 * h));
        ensure!(vdiff(&dv, &x.v) < 1e-9, key, "{nm} velocity {d} days from J2000 is {:?}, positions change at {dv:?}", x.v);
    }
    let r = norm(&e.heliocentric.p);
    ensure!(r > 0.98 && r < 1.02, key, "Earth {r} AU from the Sun {d} days from J2000");
    let s = norm(&e.heliocentric.v);
    ensure!(s > 0.0165 && s < 0.0177, key, "Earth moves at {s} AU/day {d} days from J2000");
    let sb: V = std::array::from_fn(|k| e.barycentric.p[k] - e.heliocentric.p[k]);
    let sv: V = std::array::from_fn(|k| e.barycentric.v[k] - e.heliocentric.v[k]);
    ensure!(norm(&sb) < 0.0105 && norm(&sv) < 1.2e-5, key, "Sun {} AU from the barycentre at {} AU/day, {d} days from J2000", norm(&sb), norm(&sv));
    c.outcome(r);
    Ok(())
}

pub fn c18(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (lo, hi) = (-40000i64, 40000i64);
    let nf = if thorough { 48 } else { 2 };
    v.push(family("kinematics", format!("every day from 1890 to 2109 x {nf} times of day: both velocities equal the central difference of the positions 0.01 day either side; Earth 0.98-1.02 AU from the Sun at 0.0165-0.0177 AU/day; Sun within 0.0105 AU of the barycentre"), (hi - lo) as usize, move |i, c| {
        let d = (lo + i as i64) as f64 + clock(c, nf);
        kinematics(d, c)?;
        c.note(|| format!("{d} days from J2000"));
        c.traces += 1;
        Ok(())
    }));
    let nm = if thorough { 4000 } else { 60 };
    v.push(family("every_minute", format!("every minute of {nm} days over 1890-2109: the same"), nm, move |i, c| {
        for d in minutes(i, nm, 40000.0) {
            kinematics(d, c)?;
        }
        Ok(())
    }));
    v.push(family("almanac", "every day 1900-2099: direction and distance of the Sun against an independent low-precision theory (Meeus ch. 25), 0.02 degree and 2e-4 AU", 73050, |i, c| {
        let d = i as f64 - 36524.5;
        let e = epv_of(J2000, d);
        let t = d / 36525.0;
        let (u, r) = meeus_sun(t);
        // mean equator of date to J2000: precession
        let (_, p, _) = bias_precession(t);
        let u0 = mulv(&tr(&p), &u);
        let s = e.heliocentric.p.map(|x| -x);
        c.state();
        c.step();
        let a = vangle(&s, &u0) / DEG;
        c.outcome(a);
        ensure!(a < 0.02, format!("{d}"), "Sun {d} days from J2000 is {a} degrees from the almanac position");
        ensure!((norm(&s) - r).abs() < 2e-4, format!("{d}"), "Sun {d} days from J2000 is {} AU away, almanac {r}", norm(&s));
        Ok(())
    }));
    let ld = lit_days(40000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals: the same as kinematics"), nl, move |i, c| kinematics(ld[i], c)));
    let lim: Vec<f64> = {
        let mut x = vec![0.0];
        for b in [36525.0, 36524.0, 36526.0, 36890.0, 36160.0, 73050.0, 365250.0, 1e6, 18262.5, 1.0, 100.0, 3652.5] {
            for e in [0.0, 1e-6, 1e-3, 0.5, 1.0, 7.0, 200.0] {
                x.extend([b + e, b - e, -b - e, -b + e]);
            }
        }
        for k in -400..=400 {
            x.push(k as f64 * 365.25 / 2.0);
        }
        x.extend(lit_days(80000.0));
        x.extend(far_days());
        x.extend((6..=15).flat_map(|e| [1.0, 2.0, 5.0].map(|m| m * 10f64.powi(e))).flat_map(|d| [d, -d]));
        x.retain(|d: &f64| (d.abs() - 36525.0).abs() > 1e-7);
        x
    };
    let n = lim.len();
    v.push(family("range_warning", format!("{n} dates (either side of the limits, half years 1800-2200, source literals, millennia, powers of ten to 5e15) x {N_SPLIT} two-part forms: out-of-range warning exactly when more than a century from J2000"), n, move |i, c| {
        let (a, b) = split(lim[i], c.choose(N_SPLIT));
        let d = days_j2000(a, b);
        if (d.abs() - 36525.0).abs() <= 1e-7 {
            return Ok(());
        }
        let e = epv_of(a, b);
        c.state();
        c.step();
        c.outcome(e.warning.is_some() as u8 as f64);
        ensure!(e.warning.is_some() == (d.abs() > 36525.0), format!("{a:?},{b:?}"), "{d} days from J2000: warning {:?}", e.warning);
        Ok(())
    }));
    v.push(family("unit", "the astronomical unit is the IAU 2012 value", 1, |_, c| {
        c.state();
        c.step();
        ensure!(AUM == 149597870700.0, "aum", "astronomical unit is {AUM:?} m");
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C19

fn era_point(a: f64, b: f64, c: &mut Ctx) -> Res {
    let g = rotation_angle(UT1((a, b)));
    let w = era(a, b);
    c.state();
    c.step();
    let key = format_args!("{a:?},{b:?}");
    ensure!(g >= 0.0 && g < TAU, key, "Earth rotation angle at UT1 {a:?}+{b:?} is {g:?}, outside [0,2pi)");
    let d = days_j2000(a, b);
    // fractions of each part are exact; the rest is rounding of 0.0027*t and
    // of the angle before the turns are taken off
    let (lo, hi) = (a.min(b), a.max(b));
    let t = 6e-15 + 5e-16 * (0.0173 * d.abs()) + 0.0173 * 3e-16 * (lo.abs() + (hi - J2000).abs() + d.abs());
    ensure!(adiff(g, w).abs() <= t, key, "Earth rotation angle at UT1 {a:?}+{b:?} is {g:?}, expected {w:?} (off by {:e}, tolerance {t:e})", adiff(g, w));
    c.outcome(g);
    Ok(())
}

pub fn c19(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (lo, hi) = (-73050i64, 73050i64);
    let nf = if thorough { 288 } else { 12 };
    v.push(family("every_day", format!("every day 1800-2200 x {nf} times of day x {N_SPLIT} two-part forms: angle against the exact sum of the parts, in [0,2pi)"), (hi - lo) as usize, move |i, c| {
        let d = (lo + i as i64) as f64 + clock(c, nf);
        for k in 0..N_SPLIT {
            let (a, b) = split(d, k);
            era_point(a, b, c)?;
        }
        c.note(|| format!("{d} days from J2000, {N_SPLIT} forms"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("every_second", "every second of 60 days (all forms that resolve it): angle, and the advance per second is 7.29e-5 rad", 60, |i, c| {
        let n = [-36525.0, -20000.0, -1.0, 0.0, 1.0, 2652.0, 8000.0, 9131.0, 36525.0, 50000.0][i % 10] + (i / 10) as f64;
        for k in [0, 1, 2, 3, 6, 7, 8, 9, 10, 11] {
            let mut prev: Option<f64> = None;
            for s in 0..86400 {
                let (a, b) = split(n + s as f64 / 86400.0, k);
                era_point(a, b, c)?;
                let g = rotation_angle(UT1((a, b)));
                if let Some(p) = prev {
                    let step = adiff(g, p);
                    ensure!((step - 7.292115855e-5).abs() < 2e-9, format!("{a:?},{b:?}"), "the angle advances by {step:?} rad in the second before UT1 {a:?}+{b:?}");
                }
                prev = Some(g);
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}) x {N_SPLIT} two-part forms"), nfd, move |i, c| {
        for k in 0..N_SPLIT {
            let (a, b) = split(fd[i], k);
            era_point(a, b, c)?;
        }
        Ok(())
    }));
    let ld = lit_days(1e5);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals x {N_SPLIT} two-part forms; parts equal, zero, negative"), nl, move |i, c| {
        for k in 0..N_SPLIT {
            let (a, b) = split(ld[i], k);
            era_point(a, b, c)?;
        }
        let x = ld[i];
        for (a, b) in [(J2000 + 100.0 - x, x), (J2000 - x, 2.0 * x), (J2000 + 3e6, x - 3e6), (-1e6, J2000 + 1e6 + x)] {
            era_point(a, b, c)?;
            era_point(b, a, c)?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C20

fn cmp(nm: &str, key: &dyn std::fmt::Display, g: &Mat3, w: &M, t: f64) -> Res {
    let d = mdiff(g, w);
    ensure!(d <= t, key, "{nm} at {key} is {g:?}, expected {w:?} (off by {d:e}, tolerance {t:e})");
    Ok(())
}
fn cmp1(nm: &str, key: &dyn std::fmt::Display, g: f64, w: f64, t: f64) -> Res {
    ensure!((g - w).abs() <= t, key, "{nm} at {key} is {g:?}, expected {w:?} (off by {:e}, tolerance {t:e})", g - w);
    Ok(())
}

fn pn_point(a: f64, b: f64, c: &mut Ctx) -> Res {
    let tt = TT((a, b));
    let t = cent(a, b);
    let key = format!("TT {a:?}+{b:?}");
    let k: &dyn std::fmt::Display = &key;
    let far = 1.0 + t.abs();
    // fastest nutation term 5e-6 rad/day, precession 7e-7 rad/day
    let dt = 1e-5 * dtol(a, b);
    let (dp, de) = frames::nutation(tt);
    let (mp, me) = nutation(t);
    cmp1("nutation in longitude", k, dp, mp, 2e-15 * far + dt)?;
    cmp1("nutation in obliquity", k, de, me, 2e-15 * far + dt)?;
    let (a1, a2) = frames::precession_rate(tt);
    let (b1, b2) = precession_rate(t);
    cmp1("precession rate in longitude", k, a1, b1, 1e-19 + 1e-15 * b1.abs() + dt)?;
    cmp1("precession rate in obliquity", k, a2, b2, 1e-19 + 1e-15 * b2.abs() + dt)?;
    cmp1("mean obliquity", k, frames::mean_obliquity(tt), mean_obliquity(t), 5e-16 + dt)?;
    let (rb, rp, rbp) = frames::bias_and_precession(tt);
    let (mb, mp_, mbp) = bias_precession(t);
    cmp("bias matrix", k, &rb, &mb, 1e-15)?;
    cmp("precession matrix", k, &rp, &mp_, 2e-15 + dt)?;
    cmp("bias-precession matrix", k, &rbp, &mbp, 3e-15 + dt)?;
    let g = frames::precession_nutation(tt);
    cmp("bias-precession-nutation matrix", k, &g, &bpn(t), 6e-15 * far + dt)?;
    ensure!(not_rotation(&g) < 4e-15, k, "{g:?} at {key} is not a proper rotation");
    let p: frames::PrecessionNutation = tt.into();
    cmp1("nutation reported with the matrices", k, p.dpsi, mp, 2e-15 * far + dt)?;
    let q = frames::PrecessionNutation::from_tt_with_nutation(tt, mp + 1e-4, me - 2e-5);
    cmp1("given nutation", k, q.dpsi, mp + 1e-4, 1e-18)?;
    c.state();
    c.transitions += 9;
    c.outcome(dp);
    Ok(())
}

/// The numbers after `name:` in the debug text of a structure, up to the
/// next field; nothing when there is no such field.
fn debug_field(t: &str, name: &str) -> Option<Vec<f64>> {
    let i = t.find(&format!(" {name}: ")).map(|i| i + name.len() + 3)?;
    let e = t[i..].find([':', '}']).map(|k| i + k).unwrap_or(t.len());
    let body = &t[i..e];
    let v: Vec<f64> = body.split(|c: char| !(c.is_ascii_digit() || "+-.eENa".contains(c))).filter_map(|x| if x.is_empty() { None } else { x.parse().ok() }).collect();
    Some(v)
}

/// The matrices formed with nutation angles supplied by the caller, read
/// from the debug text, the only public view of them.
fn supplied_point(a: f64, b: f64, dpsi: f64, deps: f64, c: &mut Ctx) -> Res {
    let t = cent(a, b);
    let q = frames::PrecessionNutation::from_tt_with_nutation(TT((a, b)), dpsi, deps);
    let key = format!("TT {a:?}+{b:?} with nutation {dpsi:?} {deps:?}");
    let k: &dyn std::fmt::Display = &key;
    let dt = 1e-5 * dtol(a, b);
    let far = 1.0 + t.abs();
    c.state();
    c.step();
    cmp1("given nutation", k, q.dpsi, dpsi, 0.0)?;
    let s = format!("{q:?}");
    let e0 = mean_obliquity(t) + precession_rate(t).1;
    if let Some([g]) = debug_field(&s, "epsa").as_deref() {
        cmp1("obliquity", k, *g, e0, 1e-15 + dt)?;
        c.step();
    }
    let (rb, rp, rbp) = bias_precession(t);
    for (f, nm, w, tol) in [
        ("rb", "bias matrix", rb, 1e-15),
        ("rp", "precession matrix", rp, 2e-15),
        ("rbp", "bias-precession matrix", rbp, 3e-15),
        ("rn", "nutation matrix", nutation_matrix(e0, dpsi, deps), 3e-15),
        ("rbpn", "combined matrix", bpn_with(t, dpsi, deps), 6e-15 * far),
    ] {
        if let Some(v) = debug_field(&s, f) {
            if v.len() == 9 {
                cmp(nm, k, &mat(&v), &w, tol + dt)?;
                c.step();
            }
        }
    }
    c.outcome(q.dpsi + deps);
    c.note(|| s.clone());
    Ok(())
}

pub fn c20(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    {
        let mut al = vec![0.0, 1e-300, 1e-12, 1e-9, 4.84813681109536e-6, 8.3e-5, -6.5e-5, 1e-3, -0.02, 0.5];
        al.extend(al.clone().iter().map(|x| -x));
        let lit = dict::numbers(-0.6, 0.6, &[&|x| x, &|x| x * AS]);
        let n = if thorough { 20000 } else { 600 };
        v.push(family("supplied_nutation", format!("{n} dates over 1800-2200 x every pair of {} nutation angles (zeros of both signs, tiny, large): obliquity and all five matrices formed with them; the first 12 dates also with {} angles from source literals", al.len(), lit.len()), n, move |i, c| {
            let d = -73050.0 + (i as f64 * 146100.0 / n as f64).floor() + [0.0, 0.5, 0.3][i % 3];
            let (a, b) = split(d, i % N_SPLIT);
            for &x in &al {
                for &y in &al {
                    supplied_point(a, b, x, y, c)?;
                }
            }
            if i % (n / 12) == 0 {
                for &x in &lit {
                    for (p, q) in [(x, 0.0), (0.0, x), (x, 2e-5), (-3e-5, x), (x, x)] {
                        supplied_point(a, b, p, q, c)?;
                    }
                }
            }
            c.traces += 1;
            Ok(())
        }));
        // the angles the library computes, given back to it
        v.push(family("own_nutation", format!("{} days over 1800-2200: supplying the model's own nutation gives the combined matrix of the date", 14610), 14610, |i, c| {
            let (a, b) = split(-73050.0 + 10.0 * i as f64, i % N_SPLIT);
            let (x, y) = nutation(cent(a, b));
            supplied_point(a, b, x, y, c)
        }));
    }
    let (lo, hi) = (-73050i64, 73050i64);
    let nf = if thorough { 96 } else { 2 };
    v.push(family("every_day", format!("every day 1800-2200 x {nf} times of day, two-part form varying: nutation angles, precession rate, obliquity, bias, precession, their products"), (hi - lo) as usize, move |i, c| {
        let (a, b) = split((lo + i as i64) as f64 + clock(c, nf), i % N_SPLIT);
        pn_point(a, b, c)?;
        c.note(|| format!("TT {a:?}+{b:?}"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("other_times", "every day from 1600 to 2400, at a time of day and in a two-part form differing from day to day", 292200, |i, c| {
        let d = i as i64 - 146100;
        let (a, b) = split(d as f64 + golden(d), i % N_SPLIT);
        pn_point(a, b, c)
    }));
    let nm = if thorough { 10000 } else { 100 };
    v.push(family("every_minute", format!("every minute of {nm} days over 1800-2200, two-part form varying"), nm, move |i, c| {
        for (k, d) in minutes(i, nm, 73050.0).enumerate() {
            let (a, b) = split(d, k % N_SPLIT);
            pn_point(a, b, c)?;
        }
        Ok(())
    }));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}), two-part form varying; own and supplied nutation"), nfd, move |i, c| {
        let (a, b) = split(fd[i], i % N_SPLIT);
        pn_point(a, b, c)?;
        if i % 7 == 0 {
            let (x, y) = [(0.0, 0.0), (8e-5, -4e-5), (-2e-3, 0.3), nutation(cent(a, b))][i / 7 % 4];
            supplied_point(a, b, x, y, c)?;
        }
        Ok(())
    }));
    let ld = lit_days(90000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals x {N_SPLIT} two-part forms"), nl, move |i, c| {
        let (a, b) = split(ld[i], c.choose(if thorough { N_SPLIT } else { 3 }));
        pn_point(a, b, c)
    }));
    let mut es: Vec<f64> = vec![0.0, 0.40909, 0.4, -0.4, 0.409101, 1.0, 3.0];
    es.extend((0..40).map(|k| 0.4 + 0.0005 * k as f64));
    es.extend(dict::numbers(-3.2, 3.2, &[&|x| x, &|x| x * AS]));
    let mut ds: Vec<f64> = vec![0.0];
    for x in [1e-300, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 4e-5, 6.5e-5, 8.3e-5, 1e-4, 1e-3, 0.02, 0.1, 0.7, 2.0] {
        ds.extend([x, -x]);
    }
    let ls = dict::numbers(-0.8, 0.8, &[&|x| x, &|x| x * AS]);
    let (ne, nd, nl) = (es.len(), ds.len(), ls.len());
    v.push(family("nutation_matrix", format!("{ne} obliquities x {nd} longitudes x {nd} obliquity angles, and two obliquities x {nl} values of either angle: rotation through each in turn"), ne + nl, move |i, c| {
        let mut one = |e: f64, x: f64, y: f64| -> Res {
            let g = frames::nutation_matrix(e, x, y);
            c.state();
            c.step();
            let d = mdiff(&g, &nutation_matrix(e, x, y));
            ensure!(d <= 1.5e-15, format!("{e:?} {x:?} {y:?}"), "nutation matrix for obliquity {e:?} and angles {x:?} {y:?} is {g:?}, expected {:?}", nutation_matrix(e, x, y));
            Ok(())
        };
        if i < ne {
            for &x in &ds {
                for &y in &ds {
                    one(es[i], x, y)?;
                }
            }
        } else {
            let p = ls[i - ne];
            for e in [0.4090926, 0.4093] {
                for (x, y) in [(p, 0.0), (0.0, p), (p, p), (p, 2e-5), (-5e-5, p)] {
                    one(e, x, y)?;
                }
            }
        }
        Ok(())
    }));
    v.push(family("frame_bias", "the three frame bias constants", 1, |_, c| {
        let (a, b, d) = frames::frame_bias();
        let (p, q, r) = frame_bias();
        c.state();
        c.step();
        ensure!((a - p).abs() < 1e-20 && (b - q).abs() < 1e-20 && (d - r).abs() < 1e-20, "bias", "frame bias is {:?}, expected {:?}", (a, b, d), (p, q, r));
        Ok(())
    }));
    v.push(sofa("sofa_vectors", |c| {
        for r in vectors("NUT00B") {
            let (p, e) = frames::nutation(TT((r[0], r[1])));
            let (mp, me) = nutation(cent(r[0], r[1]));
            let k = format!("{} {}", r[0], r[1]);
            for (x, y) in [(p, r[2]), (e, r[3]), (mp, r[2]), (me, r[3])] {
                cmp1("nutation vector", &k, x, y, 1e-14)?;
            }
            c.step();
            c.state();
        }
        for r in vectors("PR00") {
            let (p, e) = frames::precession_rate(TT((r[0], r[1])));
            cmp1("precession rate vector", &r[0], p, r[2], 1e-18)?;
            cmp1("precession rate vector", &r[0], e, r[3], 1e-18)?;
            c.step();
        }
        for r in vectors("NUMAT") {
            cmp("nutation matrix vector", &r[0], &frames::nutation_matrix(r[0], r[1], r[2]), &mat(&r[3..]), 2e-15)?;
            cmp("nutation matrix vector (model)", &r[0], &nutation_matrix(r[0], r[1], r[2]), &mat(&r[3..]), 2e-15)?;
            c.step();
        }
        for r in vectors("BP00") {
            let (x, y, z) = frames::bias_and_precession(TT((r[0], r[1])));
            let (p, q, s) = bias_precession(cent(r[0], r[1]));
            for (g, k) in [(x, 2), (y, 11), (z, 20), (p, 2), (q, 11), (s, 20)] {
                cmp("bias-precession vector", &r[0], &g, &mat(&r[k..]), 2e-15)?;
            }
            c.step();
        }
        for r in vectors("PNM00B") {
            cmp("precession-nutation vector", &r[0], &frames::precession_nutation(TT((r[0], r[1]))), &mat(&r[2..]), 2e-14)?;
            cmp("precession-nutation vector (model)", &r[0], &bpn(cent(r[0], r[1])), &mat(&r[2..]), 2e-14)?;
            c.step();
        }
        Ok(())
    }));
    v
}

/// Outside reference values (SOFA, from the repository's own Fortran run)
/// against implementation and model alike.
fn sofa<F: Fn(&mut Ctx) -> Res + Sync + Send + 'static>(name: &'static str, f: F) -> Family {
    let mut fam = family(name, "SOFA reference values: implementation and model both within rounding of them", 1, move |_, c| {
        c.state();
        f(c)?;
        c.traces += 1;
        Ok(())
    });
    fam.serial = true;
    fam
}

// ------------------------------------------------------------------- C21

fn fa_point(t: f64, c: &mut Ctx) -> Res {
    let g = [fundargs::l03(t), fundargs::lp03(t), fundargs::f03(t), fundargs::d03(t), fundargs::om03(t), fundargs::ve03(t), fundargs::e03(t), fundargs::pa03(t)];
    let w = fund_args(t);
    const N: [&str; 8] = ["mean anomaly of the Moon", "mean anomaly of the Sun", "F", "D", "node of the Moon", "longitude of Venus", "longitude of the Earth", "general precession"];
    const RATE: [f64; 8] = [8328.7, 628.3, 8433.5, 7771.4, 33.8, 1021.4, 628.4, 0.03];
    for k in 0..8 {
        let e = adiff(g[k], w[k]).abs();
        let tol = 4e-15 + 6e-16 * RATE[k] * t.abs();
        ensure!(e <= tol, format!("{t:?}"), "{} at {t:?} centuries is {:?}, expected {:?} modulo a turn (off by {e:e}, tolerance {tol:e})", N[k], g[k], w[k]);
        ensure!(g[k].abs() < 4.0 * PI || k == 7, format!("{t:?}"), "{} at {t:?} centuries is {:?}: not reduced", N[k], g[k]);
        c.step();
    }
    c.outcome(g[0]);
    c.state();
    Ok(())
}

pub fn c21(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let per = if thorough { 1440 } else { 48 };
    v.push(family("every_day", format!("every 1/{per} day from 1000 BC to AD 5000: eight arguments against the IERS polynomials modulo a turn, reduced below two turns"), 2191500 / 100, move |i, c| {
        for k in 0..100 * per {
            let d = (i as f64 - 10957.5) * 100.0 + k as f64 / per as f64;
            fa_point(d / 36525.0, c)?;
        }
        c.traces += 1;
        c.note(|| format!("100 days from {} days of J2000", (i as f64 - 10957.5) * 100.0));
        Ok(())
    }));
    let mut ts = dict::numbers(-40.0, 40.0, &[&|x| x, &|x| x / 36525.0, &|x| x / 100.0, &|x| (x - 2000.0) / 100.0, &|x| (x - J2000) / 36525.0]);
    for e in 0..20 {
        ts.extend([10f64.powi(-e), -10f64.powi(-e)]);
    }
    ts.push(0.0);
    let n = ts.len();
    v.push(family("literals", format!("{n} values of t around source literals and powers of ten"), n, move |i, c| fa_point(ts[i], c)));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR})"), nfd, move |i, c| fa_point(fd[i] / 36525.0, c)));
    // a closed form test of the rates: differences over one day
    v.push(family("rates", "daily motion of each argument, every 10 days 1800-2200, equals the mean motion of the body (Moon 13.065, Sun 0.98560, F 13.229, D 12.191, node -0.05295, Venus 1.60213, Earth 0.98561 degrees)", 14610, |i, c| {
        let d = i as f64 * 10.0 - 73050.0;
        let f: [fn(f64) -> f64; 7] = [fundargs::l03, fundargs::lp03, fundargs::f03, fundargs::d03, fundargs::om03, fundargs::ve03, fundargs::e03];
        let r = [13.06499295, 0.98560028, 13.22935024, 12.19074912, -0.05295378, 1.60213048, 0.98560911];
        for k in 0..7 {
            let e = adiff(f[k]((d + 1.0) / 36525.0), f[k](d / 36525.0)) / DEG;
            c.step();
            ensure!((e - r[k]).abs() < 4e-6, format!("{d} {k}"), "argument {k} moves by {e} degrees a day at {d} days, expected {}", r[k]);
        }
        c.state();
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C22

fn c2i_point(a: f64, b: f64, c: &mut Ctx) -> Res {
    let tt = TT((a, b));
    let t = cent(a, b);
    let key = format!("TT {a:?}+{b:?}");
    let k: &dyn std::fmt::Display = &key;
    let far = 1.0 + t.abs();
    let dt = 1e-5 * dtol(a, b);
    let g = frames::celestial_to_intermediate(tt);
    let w = c2i(t);
    cmp("celestial-to-intermediate matrix", k, &g, &w, 8e-15 * far + dt)?;
    ensure!(not_rotation(&g) < 4e-15, k, "{g:?} at {key} is not a proper rotation");
    let m = bpn(t);
    let (x, y) = frames::xy_from_bpn(&m);
    ensure!(x == m[2][0] && y == m[2][1], k, "pole coordinates of {m:?} are {x:?}, {y:?}");
    ensure!((g[2][0] - x).abs() < 8e-15 * far + dt && (g[2][1] - y).abs() < 8e-15 * far + dt, k, "bottom row of {g:?} at {key} is not the pole {x:?}, {y:?}");
    cmp("matrix from the pole coordinates", k, &frames::celestial_to_intermediate_with_bpn_and_xy(tt, x, y), &w, 8e-15 * far + dt)?;
    cmp("matrix from the precession-nutation matrix", k, &frames::celestial_to_intermediate_with_bpn(tt, &m), &w, 8e-15 * far + dt)?;
    for (x, y) in [(x, y), (0.0, 0.0), (1e-4, -3e-5), (-0.02, 0.01)] {
        let s = locator::cio(tt, x, y);
        cmp1("CIO locator", k, s, cio_s(t, x, y), 3e-18 + 3e-16 * far.powi(3) + dt)?;
    }
    c.state();
    c.transitions += 8;
    c.outcome(g[0][1]);
    Ok(())
}

pub fn c22(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (lo, hi) = (-73050i64, 73050i64);
    let nf = if thorough { 96 } else { 2 };
    v.push(family("every_day", format!("every day 1800-2200 x {nf} times of day, two-part form varying: CIO locator, matrix in every way of forming it, bottom row is the pole"), (hi - lo) as usize, move |i, c| {
        let (a, b) = split((lo + i as i64) as f64 + clock(c, nf), i % N_SPLIT);
        c2i_point(a, b, c)?;
        c.note(|| format!("TT {a:?}+{b:?}"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("other_times", "every day from 1600 to 2400, at a time of day and in a two-part form differing from day to day", 292200, |i, c| {
        let d = i as i64 - 146100;
        let (a, b) = split(d as f64 + golden(d), i % N_SPLIT);
        c2i_point(a, b, c)
    }));
    let nm = if thorough { 10000 } else { 100 };
    v.push(family("every_minute", format!("every minute of {nm} days over 1800-2200, two-part form varying"), nm, move |i, c| {
        for (k, d) in minutes(i, nm, 73050.0).enumerate() {
            let (a, b) = split(d, k % N_SPLIT);
            c2i_point(a, b, c)?;
        }
        Ok(())
    }));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}), two-part form varying"), nfd, move |i, c| {
        let (a, b) = split(fd[i], i % N_SPLIT);
        c2i_point(a, b, c)
    }));
    let ps: Vec<f64> = dict::numbers(-0.7, 0.7, &[&|x| x, &|x| x * AS]);
    let (np, nd) = (ps.len(), if thorough { 100 } else { 25 });
    v.push(family("locator_pole", format!("{nd} dates over 1800-2200 x {np} values (source literals, in arcseconds too, powers of ten, neighbours) of each pole coordinate, the other one zero, equal, opposite or ordinary"), nd * np, move |i, c| {
        let (a, b) = split(-73050.0 + (i / np) as f64 * 146100.0 / nd as f64 + 0.3, (i / np) % N_SPLIT);
        let p = ps[i % np];
        let t = cent(a, b);
        let key = format!("TT {a:?}+{b:?} pole coordinate {p:?}");
        for (x, y) in [(p, 0.0), (0.0, p), (p, p), (p, -p), (p, 2e-5), (-1e-4, p)] {
            let s = locator::cio(TT((a, b)), x, y);
            c.step();
            cmp1("CIO locator", &key, s, cio_s(t, x, y), 1e-17 + 3e-16 * (1.0 + t.abs()).powi(3) + 1e-5 * dtol(a, b))?;
        }
        c.state();
        Ok(())
    }));
    let ld = lit_days(90000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals"), nl, move |i, c| {
        let (a, b) = split(ld[i], c.choose(if thorough { N_SPLIT } else { 3 }));
        c2i_point(a, b, c)
    }));
    v.push(family("bpn_forms", "4913 combined matrices with arbitrary entries (any sign of each of the pole's three coordinates) x 4 dates: the matrix formed from the whole is the one formed from the pole's coordinates alone, with the date's locator", 4913, |i, c| {
        let q = |k: usize| -> f64 { [0.0, -0.0, 1e-12, -1e-12, 1e-5, -1e-5, 3e-3, -3e-3, 0.02, -0.02, 0.1, -0.1, 0.4, -0.4, 0.6, -0.6, 0.25][k] };
        let (x, y) = (q(i % 17), q(i / 17 % 17));
        let z0: f64 = 1.0 - x * x - y * y;
        let z = if i / 289 < 8 { z0.sqrt() } else { -z0.sqrt() };
        let u = |k: usize| q((i / 289 * 5 + k) % 17);
        let m = [[u(0), u(1), u(2)], [u(3), u(4), u(5)], [x, y, z]];
        let k = format!("{m:?}");
        let p = frames::xy_from_bpn(&m);
        ensure!(p == (x, y), k, "pole coordinates of {m:?} are {p:?}");
        for d in [-40000.3, 0.0, 9000.25, 700000.4] {
            let tt = split(d, i % N_SPLIT);
            let t = cent(tt.0, tt.1);
            let w = c2i_xys(x, y, cio_s(t, x, y));
            let tol = 1e-14 * (1.0 + t.abs()).powi(2) + 1e-5 * dtol(tt.0, tt.1);
            cmp("matrix from a combined matrix", &k, &frames::celestial_to_intermediate_with_bpn(TT(tt), &m), &w, tol)?;
            cmp("matrix from pole coordinates", &k, &frames::celestial_to_intermediate_with_bpn_and_xy(TT(tt), x, y), &w, tol)?;
            c.state();
            c.transitions += 2;
        }
        Ok(())
    }));
    let mut xs = vec![0.0, -0.0, 1e-300, 1e-160, 1e-17, 1e-12, 1e-9, 1e-7, 1e-6, 5.8e-4, 1e-3, 2.2e-2, 0.1, 0.3, 0.5, 0.65];
    xs.extend(dict::numbers(1e-12, 0.65, &[&|x| x, &|x| x * AS, &|x| x * DEG]).into_iter().step_by(if thorough { 1 } else { 2 }));
    let xs: Vec<f64> = xs.iter().flat_map(|x| [*x, -*x]).collect();
    let n = xs.len();
    v.push(family("pole_lattice", format!("{n} x {n} pole coordinates (all sign combinations, zeros, tiny) x 7 locators: matrix against the rational form of the IERS Conventions"), n, move |i, c| {
        let s = c.pick(&[0.0, 1e-9, -2e-7, 1e-4, -0.3, 3.0, -3.1]);
        for &y in &xs {
            let x = xs[i];
            let g = frames::celestial_to_intermediate_from_xys(x, y, s);
            c.state();
            c.step();
            let key = format_args!("{x:?} {y:?} {s:?}");
            let w = c2i_xys(x, y, s);
            let d = mdiff(&g, &w);
            ensure!(d <= 4e-15, key, "matrix for pole {x:?}, {y:?} and locator {s:?} is {g:?}, expected {w:?} (off by {d:e})");
        }
        c.outcome(xs[i]);
        Ok(())
    }));
    v.push(sofa("sofa_vectors", |c| {
        for r in vectors("S00") {
            let w = r[4];
            cmp1("CIO locator vector", &r[0], locator::cio(TT((r[0], r[1])), r[2], r[3]), w, 1e-15)?;
            cmp1("CIO locator vector (model)", &r[0], cio_s(cent(r[0], r[1]), r[2], r[3]), w, 1e-15)?;
            c.step();
        }
        for r in vectors("C2I00B") {
            cmp("celestial-to-intermediate vector", &r[0], &frames::celestial_to_intermediate(TT((r[0], r[1]))), &mat(&r[2..]), 2e-14)?;
            cmp("celestial-to-intermediate vector (model)", &r[0], &c2i(cent(r[0], r[1])), &mat(&r[2..]), 2e-14)?;
            c.step();
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C23

fn era_tol(a: f64, b: f64) -> f64 {
    1e-14 + 0.0173 * 4e-16 * (a.abs().max(b.abs()) + days_j2000(a, b).abs())
}

fn c2t_point(d: f64, dt: f64, xp: f64, yp: f64, i: usize, c: &mut Ctx) -> Res {
    let tt = split(d, i % N_SPLIT);
    let ut = split(d - dt, (i / 3) % N_SPLIT);
    let g = frames::celestial_to_terrestrial(TT(tt), UT1(ut), xp, yp);
    let w = c2t(tt, ut, xp, yp);
    c.state();
    c.step();
    let key = format!("TT {tt:?} UT1 {ut:?} pole {xp},{yp}");
    cmp("celestial-to-terrestrial matrix", &key, &g, &w, era_tol(ut.0, ut.1) + 2e-14 * (1.0 + (d / 36525.0).abs()) + 1e-5 * dtol(tt.0, tt.1))?;
    ensure!(not_rotation(&g) < 6e-15, key, "{g:?} is not a proper rotation");
    c.outcome(g[0][0]);
    if d.abs() > 80000.0 {
        return Ok(());
    }
    // independent: the equinox-based sidereal angle agrees with Greenwich
    // mean sidereal time (1982) plus the equation of the equinoxes
    let t = cent(tt.0, tt.1);
    let r3 = mul(&tr(&polar_motion(xp, yp, 0.0)), &mul(&g, &tr(&bpn(t))));
    let gst = r3[0][1].atan2(r3[0][0]);
    let w = gmst(days_j2000(ut.0, ut.1)) + nutation(t).0 * mean_obliquity(t).cos();
    ensure!(adiff(gst, w).abs() < 1e-5, key, "sidereal angle is {gst:?}, almanac {w:?}, at {key}");
    Ok(())
}

pub fn c23(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (lo, hi) = (-73050i64, 73050i64);
    let nf = if thorough { 48 } else { 2 };
    const POLES: [(f64, f64); 7] = [(0.0, 0.0), (0.0349282 * AS, 0.4833163 * AS), (-0.3 * AS, 0.1 * AS), (1e-3, -2e-3), (-1e-2, -1e-2), (0.0, 2.55060238e-7), (1.2e-6, 0.0)];
    v.push(family("every_day", format!("every day 1800-2200 x {nf} times of day, {} pole positions and TT-UT1 from -90 to 200 s in turn: matrix against pole, angle and intermediate matrices of the model", POLES.len()), (hi - lo) as usize, move |i, c| {
        let d = (lo + i as i64) as f64 + clock(c, nf);
        let dt = [0.0, 65.0, 32.184, -90.0, 200.0][i % 5] / 86400.0;
        let (xp, yp) = POLES[i % POLES.len()];
        c2t_point(d, dt, xp, yp, i, c)?;
        c.note(|| format!("{d} days from J2000, pole {xp} {yp}"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("other_times", "every day from 1800 to 2200, at a time of day, pole, TT-UT1 (to 3 days either way) and pair of two-part forms differing from day to day", 146100, |i, c| {
        let d = i as i64 - 73050;
        let g = golden(d * 7);
        c2t_point(d as f64 + golden(d), [0.0007, -0.001, 0.5, -0.5, 3.0, -3.0][i % 6] * g, (golden(d * 3) - 0.5) * 4e-6, (golden(d * 5) - 0.5) * 4e-6, i, c)
    }));
    let nm = if thorough { 10000 } else { 100 };
    v.push(family("every_minute", format!("every minute of {nm} days over 1800-2200, pole, TT-UT1 and two-part forms varying"), nm, move |i, c| {
        for (k, d) in minutes(i, nm, 73050.0).enumerate() {
            c2t_point(d, [0.0, 6e-4, -1e-3, 0.5][k % 4], POLES[(k + i) % 7].0, POLES[k % 7].1, k, c)?;
        }
        Ok(())
    }));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}), pole, TT-UT1 (to days) and two-part forms varying"), nfd, move |i, c| {
        c2t_point(fd[i], [0.0, 6e-4, -1e-3, 0.5, 3.0][i % 5], POLES[(i / 5) % 7].0, POLES[i % 7].1, i, c)
    }));
    let ld = lit_days(73000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals as TT and as UT1, x 3 poles"), nl, move |i, c| {
        for (k, (x, y)) in [(0.0, 0.0), (1e-6, 0.0), (-3e-7, 2e-6)].into_iter().enumerate() {
            c2t_point(ld[i], 7.5e-4, x, y, i + k, c)?;
            c2t_point(ld[i] - 8e-4, -8e-4, x, y, i + k, c)?;
        }
        Ok(())
    }));
    let mut dp: Vec<f64> = dict::numbers(-1e-3, 1e-3, &[&|x| x, &|x| x * AS]);
    dp.extend((1..=60).flat_map(|k| [k as f64 * 0.05, k as f64 * -0.05]));
    let nd = dp.len();
    v.push(family("pole_literals", format!("{nd} values of each pole coordinate (source literals, powers of ten, 0.05 to 3 radians), the other zero, equal or ordinary, x 6 dates"), nd, move |i, c| {
        let p = dp[i];
        for (k, (x, y)) in [(p, 0.0), (0.0, p), (p, p), (p, -1e-6), (2e-6, p)].into_iter().enumerate() {
            for d in [-60000.25, -5000.5, 0.1, 3650.7, 9000.9, 70000.3] {
                c2t_point(d, 7.5e-4, x, y, i + k, c)?;
            }
        }
        Ok(())
    }));
    let ps: Vec<f64> = {
        let mut p = vec![0.0, -0.0, 1e-12, 1e-9, 2.55060238e-7, 1.860359247e-6, 1e-5, 1e-3, 0.1, 1.0, 3.0];
        p.extend(dict::numbers(0.0, 3.0, &[&|x| x, &|x| x * AS]).into_iter().step_by(if thorough { 1 } else { 2 }));
        p.iter().flat_map(|x| [*x, -*x]).collect()
    };
    let n = ps.len();
    v.push(family("polar_motion", format!("{n} x {n} pole positions x 5 values of the TIO locator: the product of the three rotations in order"), n, move |i, c| {
        let sp = c.pick(&[0.0, -1.4e-11, 1e-6, -0.02, 1.0]);
        for &y in &ps {
            let g = polar_motion_matrix(ps[i], y, sp);
            c.state();
            c.step();
            let d = mdiff(&g, &polar_motion(ps[i], y, sp));
            ensure!(d <= 1e-15, format!("{:?} {y:?} {sp:?}", ps[i]), "polar motion matrix for {:?} {y:?} {sp:?} is {g:?}, expected {:?}", ps[i], polar_motion(ps[i], y, sp));
        }
        Ok(())
    }));
    let mut ea: Vec<f64> = (0..48).map(|k| k as f64 * TAU / 48.0 + if k % 5 == 0 { 0.123 } else { 0.0 }).collect();
    ea.extend(dict::numbers(-7.0, 7.0, &[&|x| x, &|x| x * DEG]));
    let na = ea.len();
    v.push(family("components", format!("24 intermediate matrices x {na} angles (source literals, powers of ten, neighbours) x 24 pole matrices: pole times angle times intermediate"), 24, move |i, c| {
        let m = |k: usize| mul(&rot(k % 3, k as f64 * 0.7 - 3.0), &mul(&rot((k + 1) % 3, 1.3 - k as f64 * 0.4), &rot((k / 3) % 3, 0.2 * k as f64)));
        for (k, &e) in ea.iter().enumerate() {
            for j in 0..24 {
                // for i = j, one and the same object
                let (p, q) = (m(i), m(j));
                let g = frames::celestial_to_terrestrial_from_cio_components(&p, e, if i == j { &p } else { &q });
                c.state();
                c.step();
                let w = mul(&m(j), &mul(&rot(2, e), &m(i)));
                ensure!(mdiff(&g, &w) < 4e-15, format!("{i} {k} {j}"), "components {i}, angle {e}, pole {j}: {g:?}, expected {w:?}");
            }
        }
        Ok(())
    }));
    let nt = if thorough { 3000 } else { 300 };
    v.push(family("argument_independence", format!("{nt} TT dates x {nt} UT1 dates chosen independently: each enters only through its own factor"), nt, move |i, c| {
        let tt = split(-70000.0 + i as f64 * (140000.0 / nt as f64) + 0.3, i % N_SPLIT);
        for j in 0..nt {
            let ut = split(-70000.0 + j as f64 * (140000.0 / nt as f64) + 0.037 * j as f64, j % N_SPLIT);
            let g = frames::celestial_to_terrestrial(TT(tt), UT1(ut), 1e-6, -2e-6);
            c.state();
            c.step();
            let w = c2t(tt, ut, 1e-6, -2e-6);
            let key = format!("TT {tt:?} UT1 {ut:?}");
            cmp("celestial-to-terrestrial matrix", &key, &g, &w, era_tol(ut.0, ut.1) + 6e-14)?;
        }
        Ok(())
    }));
    v.push(sofa("sofa_vectors", |c| {
        for r in vectors("ERA00") {
            let g = rotation_angle(UT1((r[0], r[1])));
            ensure!(adiff(g, r[2]).abs() < 1e-10, r[0], "Earth rotation angle vector {r:?}: {g:?}");
            ensure!(adiff(era(r[0], r[1]), r[2]).abs() < 1e-10, r[0], "Earth rotation angle vector {r:?}: model {:?}", era(r[0], r[1]));
            c.step();
        }
        for r in vectors("POM00") {
            cmp("polar motion vector", &r[0], &polar_motion_matrix(r[0], r[1], r[2]), &mat(&r[3..]), 2e-15)?;
            cmp("polar motion vector (model)", &r[0], &polar_motion(r[0], r[1], r[2]), &mat(&r[3..]), 2e-15)?;
            c.step();
        }
        for r in vectors("C2TCIO") {
            cmp("component vector", &r[0], &frames::celestial_to_terrestrial_from_cio_components(&mat(&r[0..9]), r[9], &mat(&r[10..19])), &mat(&r[19..]), 1e-14)?;
            c.step();
        }
        for r in vectors("C2T00B") {
            let w = mat(&r[8..]);
            cmp("terrestrial vector", &r[0], &frames::celestial_to_terrestrial(TT((r[0], r[1])), UT1((r[6], r[7])), 0.0, 0.0), &w, 1e-12)?;
            cmp("terrestrial vector (model)", &r[0], &c2t((r[0], r[1]), (r[6], r[7]), 0.0, 0.0), &w, 1e-10)?;
            c.step();
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C24

fn split_point(d: f64, k: usize, c: &mut Ctx) -> Res {
    let (p, q) = (split(d, 0), split(d, k));
    // the same instant to within the rounding of forming the parts
    let off = (days_j2000(q.0, q.1) - days_j2000(p.0, p.1)).abs();
    let e = off + dtol(p.0, p.1) + dtol(q.0, q.1);
    let key = format!("{p:?} {q:?}");
    let kd: &dyn std::fmt::Display = &key;
    let far = 1.0 + (d / 36525.0).abs();
    let (a, b) = (epv_of(p.0, p.1), epv_of(q.0, q.1));
    ensure!(vdiff(&a.heliocentric.p, &b.heliocentric.p) <= 1e-12 * far + 0.02 * e, kd, "Earth position differs between {key}");
    ensure!(vdiff(&a.barycentric.p, &b.barycentric.p) <= 1e-12 * far + 0.02 * e, kd, "barycentric position differs between {key}");
    ensure!(vdiff(&a.barycentric.v, &b.barycentric.v) <= 4e-14 * far + 0.001 * e, kd, "Earth velocity differs between {key}");
    ensure!(vdiff(&a.heliocentric.v, &b.heliocentric.v) <= 4e-14 * far + 0.001 * e, kd, "heliocentric velocity differs between {key}");
    if (d.abs() - 36525.0).abs() > 1e-6 {
        ensure!(a.warning.is_some() == b.warning.is_some(), kd, "range warning differs between {key}");
    }
    let (a, b) = (rotation_angle(UT1(p)), rotation_angle(UT1(q)));
    ensure!(adiff(a, b).abs() <= 6.31 * off + era_tol(p.0, p.1) + era_tol(q.0, q.1), kd, "Earth rotation angle differs between {key}: {a:?} {b:?}");
    let (a, b) = (frames::nutation(TT(p)), frames::nutation(TT(q)));
    ensure!((a.0 - b.0).abs() + (a.1 - b.1).abs() <= 8e-15 * far + 2e-5 * e, kd, "nutation differs between {key}");
    cmp("intermediate matrix", kd, &frames::celestial_to_intermediate(TT(p)), &frames::celestial_to_intermediate(TT(q)), 2e-14 * far + 2e-5 * e)?;
    cmp("precession-nutation matrix", kd, &frames::precession_nutation(TT(p)), &frames::precession_nutation(TT(q)), 2e-14 * far + 2e-5 * e)?;
    let (ab, ap, a) = frames::bias_and_precession(TT(p));
    let (bb, bp, b) = frames::bias_and_precession(TT(q));
    cmp("bias-precession matrix", kd, &a, &b, 1e-14 + 2e-5 * e)?;
    cmp("precession matrix", kd, &ap, &bp, 1e-14 + 2e-5 * e)?;
    cmp("bias matrix", kd, &ab, &bb, 1e-15)?;
    let (ar, br) = (frames::precession_rate(TT(p)), frames::precession_rate(TT(q)));
    ensure!((ar.0 - br.0).abs() + (ar.1 - br.1).abs() <= 1e-17 + 1e-9 * e, kd, "precession rates differ between {key}: {ar:?} {br:?}");
    cmp(
        "intermediate matrix with pole",
        kd,
        &frames::celestial_to_intermediate_with_bpn_and_xy(TT(p), 1e-4, 2e-5),
        &frames::celestial_to_intermediate_with_bpn_and_xy(TT(q), 1e-4, 2e-5),
        1e-14 + 2e-5 * e,
    )?;
    // the calendar date too
    let (da, db) = (GregorianDate::from_julian(p.0, p.1), GregorianDate::from_julian(q.0, q.1));
    match (da, db) {
        (Ok(a), Ok(b)) => {
            let n = |x: &GregorianDate| mjd_of(x.year as i64, x.month as i64, x.day as i64);
            let x = (n(&a.0) - n(&b.0)) as f64 + (a.1 - b.1);
            // half a day is taken off the smaller part
            let t = off + f64::EPSILON * (p.0.abs().min(p.1.abs()) + q.0.abs().min(q.1.abs()) + 4.0);
            ensure!(x.abs() <= t, kd, "calendar date differs between {key}: {a:?} {b:?}");
        }
        (a, b) => ensure!(a.is_err() == b.is_err() || (J2000 + d + 32000.0).abs() < 1.0, kd, "calendar date differs between {key}: {a:?} {b:?}"),
    }
    cmp1("obliquity", kd, frames::mean_obliquity(TT(p)), frames::mean_obliquity(TT(q)), 1e-15 + 2e-5 * e)?;
    cmp1("CIO locator", kd, locator::cio(TT(p), 1e-4, 2e-5), locator::cio(TT(q), 1e-4, 2e-5), 1e-14 + 2e-5 * e)?;
    cmp(
        "terrestrial matrix",
        kd,
        &frames::celestial_to_terrestrial(TT(p), UT1(q), 1e-6, 2e-6),
        &frames::celestial_to_terrestrial(TT(q), UT1(p), 1e-6, 2e-6),
        4e-14 * far + 6.31 * off + era_tol(p.0, p.1) + era_tol(q.0, q.1) + 2e-5 * e,
    )?;
    // and every conversion between scales
    let ex = |x: (f64, f64)| days_j2000(x.0, x.1);
    for o in [0.0, 65.184, -0.3] {
        for (nm, x, y) in [
            ("TAI", TAI::from_utc_delta_at(UTC(p), o).0, TAI::from_utc_delta_at(UTC(q), o).0),
            ("TT", TT::from(TAI(p)).0, TT::from(TAI(q)).0),
            ("TDB", TDB::from_tt(TT(p), o).0, TDB::from_tt(TT(q), o).0),
            ("UT1", UT1::from_tt(TT(p), o).0, UT1::from_tt(TT(q), o).0),
            ("TT from UT1", TT::from_ut1(UT1(p), o).0, TT::from_ut1(UT1(q), o).0),
        ] {
            // the smaller part takes the offset; halves are worst
            let t = off + 4.5e-16 * (p.0.abs().min(p.1.abs()) + q.0.abs().min(q.1.abs()) + 1.0) + 1e-16 * d.abs();
            ensure!((ex(x) - ex(y)).abs() <= t, kd, "{nm} with offset {o} differs between {key}: {x:?} {y:?}");
            c.transitions += 2;
        }
    }
    c.state();
    c.transitions += 30;
    c.outcome(a[0][0]);
    Ok(())
}

pub fn c24(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = if thorough { 600_000 } else { 10000 };
    v.push(family("splits", format!("{n} instants over 1800-2200 x {N_SPLIT} two-part forms of each (5 reference epochs, past and future, whole JD, day plus fraction, equal halves; both orders): every date function returns the same to within the rounding of the form"), n, move |i, c| {
        let d = (-73000.0 + i as f64 * (146000.0 / n as f64)).floor() + [0.0, 0.5, 0.25, 0.123456789, 0.999999][i % 5];
        let k = c.choose(N_SPLIT);
        split_point(d, k, c)?;
        c.note(|| format!("{d} days from J2000, form {k}"));
        c.traces += 1;
        Ok(())
    }));
    v.push(family("other_times", "every day from 1800 to 2200, at a time of day differing from day to day, in two of the forms in turn", 146100, |i, c| {
        let d = i as i64 - 73050;
        for k in [i % N_SPLIT, (i / N_SPLIT * 5 + 3) % N_SPLIT] {
            split_point(d as f64 + golden(d), k, c)?;
        }
        Ok(())
    }));
    let fd = far_days();
    let nfd = fd.len();
    v.push(family("millennia", format!("{nfd} dates ({FAR}), one of the forms in turn"), nfd, move |i, c| split_point(fd[i], (i + i / N_SPLIT) % N_SPLIT, c)));
    let ld = lit_days(73000.0);
    let nl = ld.len();
    v.push(family("literals", format!("{nl} dates around source literals x {N_SPLIT} forms"), nl, move |i, c| {
        let k = c.choose(N_SPLIT);
        split_point(ld[i], k, c)
    }));
    v
}
