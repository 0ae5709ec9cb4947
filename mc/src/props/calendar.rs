//! C01-C06: calendar, Julian dates, time of day and their text forms.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::calendar::{GregorianDate, GregorianDateHMS, HMS, CalendarError};

/// from_julian accepts JD in [-32000, 1e9].
const MJD_LO: i64 = -2432000;
const MJD_HI: i64 = 997599999;

fn gd(d: &Day) -> GregorianDate {
    GregorianDate { year: d.y as i32, month: d.m as i32, day: d.d as i32 }
}

fn julian_days(d: &GregorianDate) -> f64 {
    // exact for the sizes involved
    let (a, b) = d.to_julian();
    fx_to_f64(fx(a) + fx(b) - fx(MJD0))
}

/// One step of the conformance run: implementation against automaton state.
#[inline]
fn day_conforms(d: &Day, split: u8, c: &mut Ctx) -> Res {
    let g = gd(d);
    if d.y >= -4799 {
        match GregorianDate::new(d.y as i32, d.m as i32, d.d as i32) {
            Ok(h) => ensure!(h == g, format!("new {}", d.mjd), "new({},{},{}) gave {h:?}", d.y, d.m, d.d),
            Err(e) => bail!(format!("new {}", d.mjd), "new({},{},{}) rejected: {e}", d.y, d.m, d.d),
        }
        c.step();
    }
    let j = julian_days(&g);
    ensure!(j == d.mjd as f64, format!("to_julian {}", d.mjd), "{g:?} -> MJD {j}, expected {}", d.mjd);
    let m = d.mjd as f64;
    // all of these sums are exact
    let jd = m + MJD0;
    let k = ((d.mjd.wrapping_mul(7919)).rem_euclid(10_000_019) - 5_000_000) as f64;
    let (a, b) = match split {
        0 => (MJD0, m),
        1 => (jd, 0.0),
        2 => (m, MJD0),
        3 => (0.0, jd),
        4 => (jd / 2.0, jd / 2.0),
        5 => (2451545.0, jd - 2451545.0),
        6 => (jd - 2451545.0, 2451545.0),
        7 => (jd - k, k),
        8 => (k + 0.5, jd - (k + 0.5)),
        9 => (jd - 0.25, 0.25),
        10 => (-0.25, jd + 0.25),
        11 => (jd + 1e9, -1e9),
        12 => (-2000000.0, jd + 2000000.0),
        13 => (jd + 0.5 + 134217728.0, -134217728.5),
        14 => (-134217728.5, jd + 0.5 + 134217728.0),
        15 => (jd + 1e12, -1e12),
        _ => (1125899906842624.0, jd - 1125899906842624.0),
    };
    match GregorianDate::from_julian(a, b) {
        Ok((h, f)) => ensure!(h == g && f == 0.0, format!("from_julian {}", d.mjd), "from_julian({a},{b}) = {h:?} + {f}, expected {g:?} + 0"),
        Err(e) => bail!(format!("from_julian {}", d.mjd), "from_julian({a},{b}) rejected: {e}"),
    }
    c.transitions += 2;
    c.state();
    Ok(())
}

fn walk(lo: i64, hi: i64, split: u8, c: &mut Ctx) -> Res {
    let mut d = Day::from_mjd(lo);
    c.note(|| format!("walk from {:04}-{:02}-{:02} (MJD {lo}) to MJD {hi}, one day at a time", d.y, d.m, d.d));
    let mut k = 0u32;
    while d.mjd <= hi {
        day_conforms(&d, split, c)?;
        d.next();
        k += 1;
        if k & 0xfffff == 0 {
            tick();
        }
    }
    c.outcome(hi as f64);
    c.traces += 1;
    Ok(())
}

pub fn c01(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    const CH: i64 = 200_000;
    let n = ((MJD_HI - MJD_LO) / CH + 1) as usize;
    v.push(family(
        "every_day",
        format!("calendar automaton (state = date, transition = next day) walked over every day MJD {MJD_LO}..{MJD_HI}, i.e. every day number a Julian date accepted by the library can denote; at each state construct, to Julian, from Julian"),
        n,
        move |i, c| {
            let lo = MJD_LO + i as i64 * CH;
            walk(lo, (lo + CH - 1).min(MJD_HI), 0, c)
        },
    ));
    // the other splits on the historical range
    let (lo, hi) = if thorough { (MJD_LO, MJD_HI) } else { (MJD_LO, 50_000_000) };
    let n = ((hi - lo) / CH + 1) as usize;
    v.push(family("every_day_other_splits", format!("the same walk over MJD {lo}..{hi} with the day number split in 16 other ways: one part in either place, swapped, equal halves, from J2000 in either order, by an offset that differs from day to day, quarter days off, around 1e9, -2e6, 2^27, 1e12 and 2^50"), n, move |i, c| {
        let split = 1 + c.choose(16) as u8;
        let l = lo + i as i64 * CH;
        walk(l, (l + CH - 1).min(hi), split, c)
    }));
    // years past the from_julian range: the constructor accepts any year
    let ys: Vec<i64> = {
        let mut ys = vec![2738000, 3000000, 5000000, 10_000_000, 178956970, 178956971, 500_000_000, 1_000_000_000, 2_000_000_000, 2147483647, 2147483646, 2147483600, 2147483400];
        ys.extend(dict::ints().into_iter().filter(|y| *y > 2_730_000 && *y <= 2147483647));
        ys.sort();
        ys.dedup();
        ys
    };
    let n = ys.len();
    v.push(family("far_years", format!("every date of {n} years beyond the Julian range, up to the largest representable: construct and convert to Julian"), n, move |i, c| {
        let mut d = Day::from_ymd(ys[i], 1, 1);
        while d.y == ys[i] {
            let g = match GregorianDate::new(d.y as i32, d.m as i32, d.d as i32) {
                Ok(g) => g,
                Err(e) => bail!(format!("new {}", d.mjd), "new({d:?}) rejected: {e}"),
            };
            let j = julian_days(&g);
            ensure!(j == d.mjd as f64, format!("to_julian {}", d.mjd), "{g:?} -> MJD {j}, expected {}", d.mjd);
            c.state();
            c.step();
            d.next();
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C02

fn expect_new(y: i64, m: i64, d: i64, c: &mut Ctx) -> Res {
    let r = GregorianDate::new(y as i32, m as i32, d as i32);
    c.step();
    let key = format_args!("{y},{m},{d}");
    if y < -4799 {
        ensure!(matches!(r, Err(CalendarError::BadYear)), key, "new({y},{m},{d}) = {r:?}, expected BadYear");
    } else if !(1..=12).contains(&m) {
        ensure!(matches!(r, Err(CalendarError::BadMonth)), key, "new({y},{m},{d}) = {r:?}, expected BadMonth");
    } else if d < 1 || d > month_len(y, m) {
        ensure!(matches!(r, Err(CalendarError::BadDay)), key, "new({y},{m},{d}) = {r:?}, expected BadDay");
    } else {
        ensure!(matches!(r,Ok(g) if g.year as i64 == y && g.month as i64 == m && g.day as i64 == d), key, "new({y},{m},{d}) = {r:?}, expected that date");
    }
    Ok(())
}

pub fn c02(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let (ylo, yhi) = if thorough { (-10000i64, 400000i64) } else { (-6000, 30000) };
    v.push(family("box", format!("every (year,month,day) in [{ylo},{yhi}] x [-3,16] x [-3,35]"), (yhi - ylo + 1) as usize, move |i, c| {
        let y = ylo + i as i64;
        for m in -3..=16 {
            for d in -3..=35 {
                expect_new(y, m, d, c)?;
                c.state();
            }
        }
        c.note(|| format!("year {y}, all months -3..16 and days -3..35"));
        c.traces += 1;
        Ok(())
    }));
    // the whole 32-bit year axis
    const CH: i64 = 1 << 20;
    v.push(family(
        "all_years",
        "every 32-bit year (4294967296 of them), February 28, 29 and 30 (February 29 decides the leap rule)",
        (1usize << 32) / CH as usize,
        move |i, c| {
            let lo = i32::MIN as i64 + i as i64 * CH;
            for y in lo..lo + CH {
                let ok29 = GregorianDate::new(y as i32, 2, 29).is_ok();
                let ok28 = GregorianDate::new(y as i32, 2, 28).is_ok();
                let ok30 = GregorianDate::new(y as i32, 2, 30).is_ok();
                let e = y >= -4799;
                let leap = y & 3 == 0 && (y % 100 != 0 || y % 400 == 0);
                if ok29 != (e && leap) || ok28 != e || ok30 {
                    expect_new(y, 2, 28, c)?;
                    expect_new(y, 2, 29, c)?;
                    expect_new(y, 2, 30, c)?;
                }
            }
            c.states += CH as u64;
            c.transitions += 3 * CH as u64;
            c.traces += 1;
            tick();
            Ok(())
        },
    ));
    // month and day axes at extreme values
    let mut ax: Vec<i64> = vec![];
    for b in [0i64, 1, -1, 12, 13, 28, 29, 30, 31, 32, 59, 60, 100, 255, 256, 365, 366, 1 << 15, 1 << 16, i32::MAX as i64, i32::MIN as i64] {
        for s in -2..=2 {
            ax.push(b + s);
        }
    }
    for k in dict::ints() {
        ax.extend([k, -k, k + 1, k - 1]);
    }
    for m in 1..=12i64 {
        ax.extend([m + (1 << 8), m + (1 << 16), m - (1 << 8), m - (1 << 16), m + (1 << 24)]);
    }
    ax.retain(|x| *x >= i32::MIN as i64 && *x <= i32::MAX as i64);
    ax.sort();
    ax.dedup();
    let ys = [-2147483648i64, -4801, -4800, -4799, -4798, -1, 0, 1, 4, 100, 400, 1582, 1858, 1900, 1999, 2000, 2004, 2017, 2023, 2024, 2100, 2147483647];
    v.push(family(
        "extremes",
        format!("{} special values on each of the month and day axes (bounds, 32-bit extremes, wrap-around images of valid values, source literals) x {} years", ax.len(), ys.len()),
        ys.len() * 20,
        move |i, c| {
            let y = ys[i / 20];
            for (k, &m) in ax.iter().enumerate() {
                if k % 20 != i % 20 {
                    continue;
                }
                for &d in &ax {
                    expect_new(y, m, d, c)?;
                    c.state();
                }
                for d in 1..=31 {
                    expect_new(y, m, d, c)?;
                    expect_new(y, d.min(12), m, c)?;
                }
            }
            c.traces += 1;
            Ok(())
        },
    ));
    if thorough {
        v.push(family("month_day_axis", "every 32-bit month and every 32-bit day at 2023 and 2024 (8.6e9 states)", 4096, move |i, c| {
            let lo = i32::MIN as i64 + ((i as i64) << 20);
            for m in lo..lo + (1 << 20) {
                for y in [2023, 2024] {
                    let a = GregorianDate::new(y, m as i32, 15).is_ok();
                    let b = GregorianDate::new(y, 2, m as i32).is_ok();
                    if a != (1..=12).contains(&m) || b != (m >= 1 && m <= month_len(y as i64, 2)) {
                        expect_new(y as i64, m, 15, c)?;
                        expect_new(y as i64, 2, m, c)?;
                    }
                }
            }
            c.states += 2 << 20;
            c.transitions += 4 << 20;
            tick();
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------- C03

fn frac_alphabet(thorough: bool) -> Vec<f64> {
    let mut f = vec![0.0, 0.25, 0.5, 0.75, 1.0 / 3.0, 2.0 / 3.0, 0.1, 0.9, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e-17, 1e-20];
    for x in [0.25, 0.5, 0.75, 1.0] {
        let mut lo: f64 = x;
        let mut hi: f64 = x;
        for _ in 0..3 {
            lo = lo.next_down();
            hi = hi.next_up();
            f.push(lo);
            if hi < 1.0 {
                f.push(hi)
            }
        }
        for e in [1e-15, 1e-12, 1e-9, 1e-6, 1e-3] {
            f.push(x - e);
            if x + e < 1.0 {
                f.push(x + e)
            }
        }
    }
    f.push(1.0 / 86400.0);
    f.push(1.0 - 1.0 / 86400.0);
    let n = if thorough { 480 } else { 96 };
    for k in 1..n {
        f.push(k as f64 / n as f64);
    }
    f.extend(dict::around(0.0, 1.0, &[&|x| x, &|x| x / 86400.0, &|x| x / 24.0]).into_iter().filter(|x| *x < 1.0));
    f.sort_by(f64::total_cmp);
    f.dedup();
    f
}

fn special_days() -> Vec<i64> {
    let mut v: Vec<i64> = vec![MJD_LO, MJD_LO + 1, MJD_LO + 2, MJD_HI, MJD_HI - 1, -2400001, -2400000, -2399999, -678575, 0, 1, -1, 15078, 40587, 41317, 51544, 51545, 88068, 88127, 88128, 88129, 57754, 60000];
    for y in [-4800i64, -4799, -4713, -401, -400, -100, -5, -4, -1, 0, 1, 4, 100, 400, 1582, 1600, 1700, 1800, 1858, 1900, 1970, 1999, 2000, 2001, 2004, 2016, 2023, 2024, 2099, 2100, 2400, 3000, 9999, 10000, 100000, 1000000, 1465000, 1500000, 2000000] {
        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (12, 31)] {
            if d <= month_len(y, m) {
                v.push(mjd_of(y, m, d))
            }
        }
    }
    for k in dict::literals_all() {
        for x in [*k, k - MJD0, k - J2000 + 51544.0, -*k] {
            let n = x.floor() as i64;
            v.extend([n - 1, n, n + 1]);
        }
    }
    for &(m, ..) in TAI_UTC {
        v.extend([m - 1, m]);
    }
    // bit-size boundaries of day arithmetic
    for e in 15..30 {
        v.extend([1i64 << e, (1 << e) - 68569, (1 << e) - 2400001, (1 << e) / 4 - 68569 - 2400001]);
    }
    v.extend([536870911 - 68569 - 2400001, 536870912 - 68569 - 2400001, 536870913 - 68569 - 2400001]);
    v.retain(|x| *x >= MJD_LO && *x <= MJD_HI);
    v.sort();
    v.dedup();
    v
}

/// An eighth of a day that goes with the number but not with its residues.
fn eighth(n: i64) -> f64 {
    ((n as u64).wrapping_mul(0x9e3779b97f4a7c15) >> 61) as f64 / 8.0
}

const N_SPLIT: usize = 20;
/// Two-part forms of (day number, fraction since midnight).  The instant
/// actually denoted is the exact sum of the returned parts.
fn split(m: i64, f: f64, k: usize) -> (f64, f64) {
    let m = m as f64;
    let (a, b) = match k / 2 {
        0 => (MJD0, m + f),
        1 => (m + MJD0, f),
        2 => (m + MJD0 + f, 0.0),
        3 => (J2000, (m - 51544.5) + f),
        4 => (m + MJD0 + 1.0, f - 1.0),
        5 => (m + MJD0 + 0.5, f - 0.5),
        6 => (-12345.25, (m + MJD0 + 12345.25) + f),
        7 => (3000000.125, (m + MJD0 - 3000000.125) + f),
        8 => (m + MJD0 + 1000.5, f - 1000.5),
        _ => ((m + MJD0) / 2.0 + 0.25, (m + MJD0) / 2.0 + (f - 0.25)),
    };
    if k % 2 == 0 {
        (a, b)
    } else {
        (b, a)
    }
}

fn c03_point(a: f64, b: f64, c: &mut Ctx) -> Res {
    let key = format_args!("{a:e},{b:e}");
    let s = fx(a) + fx(b); // exact JD
    let one = 1i128 << FX;
    let (lo, hi) = (-32000 * one, 1_000_000_000 * one);
    let sum = a + b;
    // tolerance: rounding of the smaller part, of the fractions and of the result
    let small = a.min(b).abs(); // what half a day is taken off
    let tol = fx(4.0 * f64::EPSILON * (1.0 + small));
    c.step();
    let r = GregorianDate::from_julian(a, b);
    match r {
        Err(e) => {
            // at a bound the library may decide on the rounded sum
            let inside = s >= lo && s <= hi && sum > -32000.0 && sum < 1e9;
            ensure!(!inside, key, "from_julian({a:?},{b:?}) rejected ({e}) a date inside the range");
            ensure!(matches!(e, CalendarError::BadJulian), key, "from_julian({a:?},{b:?}) failed with {e:?}");
            c.outcome(-1.0);
        }
        Ok((g, f)) => {
            let outside = sum < -32000.0 || sum > 1e9 || sum.is_nan();
            ensure!(!outside, key, "from_julian({a:?},{b:?}) accepted a date outside the range: {g:?}");
            ensure!(f >= 0.0 && f < 1.0, key, "from_julian({a:?},{b:?}) returned the fraction {f:?}");
            let (y, m, d) = (g.year as i64, g.month as i64, g.day as i64);
            ensure!((1..=12).contains(&m) && d >= 1 && d <= month_len(y, m), key, "from_julian({a:?},{b:?}) returned the non-date {g:?}");
            let got = (mjd_of(y, m, d) as i128) * one + fx(f);
            let want = s - fx(MJD0);
            ensure!((got - want).abs() <= tol, key, "from_julian({a:?},{b:?}) = {g:?} + {f:?}: off by {:e} day (tolerance {:e})", fx_to_f64(got - want), fx_to_f64(tol));
            c.outcome(f + g.day as f64);
        }
    }
    Ok(())
}

pub fn c03(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let days = special_days();
    let fr = frac_alphabet(thorough);
    let nd = days.len();
    {
        let (days, fr) = (days.clone(), fr.clone());
        v.push(family("special_days", format!("{} special days x {} fractions x {N_SPLIT} two-part forms (10 splits, both orders), against the exact sum of the parts", nd, fr.len()), nd, move |i, c| {
            for &f in &fr {
                for k in 0..N_SPLIT {
                    let (a, b) = split(days[i], f, k);
                    c03_point(a, b, c)?;
                    c.state();
                }
            }
            c.note(|| format!("MJD {} with all fractions and splits", days[i]));
            c.traces += 1;
            Ok(())
        }));
    }
    let (lo, hi) = if thorough { (-2432000i64, 5_000_000) } else { (-800_000, 300_000) };
    let fr2: Vec<f64> = vec![0.0, 1e-17, 1e-9, 0.25, 0.5f64.next_down(), 0.5, 0.5f64.next_up(), 0.7312345678901234, 0.999999, 1.0 - 1.1102230246251565e-16, 1.0f64.next_down()];
    v.push(family("every_day", format!("every day MJD {lo}..{hi} x {} fractions x {N_SPLIT} two-part forms", fr2.len()), ((hi - lo) / 100) as usize, move |i, c| {
        for m in lo + i as i64 * 100..lo + (i as i64 + 1) * 100 {
            for &f in &fr2 {
                for k in 0..N_SPLIT {
                    let (a, b) = split(m, f, k);
                    c03_point(a, b, c)?;
                    c.state();
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let (lo2, hi2) = (-2432000i64, if thorough { 300_000_000 } else { 2_000_000 });
    v.push(family("varying_fractions", format!("every day MJD {lo2}..{hi2}, the fraction of day differing from day to day, x {N_SPLIT} two-part forms"), ((hi2 - lo2) / 1000) as usize, move |i, c| {
        for m in lo2 + i as i64 * 1000..lo2 + (i as i64 + 1) * 1000 {
            let f = if m % 4 == 0 { eighth(m / 4) } else { (m as f64 * 0.618033988749895).rem_euclid(1.0) };
            for k in 0..N_SPLIT {
                let (a, b) = split(m, f, k);
                c03_point(a, b, c)?;
                c.state();
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let step = if thorough { 101 } else { 1999 };
    v.push(family("far_days", format!("every {step}th day up to the end of the range, at eighths of a day and other fractions in turn, x {N_SPLIT} two-part forms"), ((MJD_HI - 2_000_000) / step / 1000) as usize, move |i, c| {
        for n in i as i64 * 1000..(i as i64 + 1) * 1000 {
            let m = 2_000_000 + n * step;
            let f = if n % 3 == 0 { eighth(n) } else { (m as f64 * 0.618033988749895).rem_euclid(1.0) };
            for k in 0..N_SPLIT {
                let (a, b) = split(m, f, k);
                c03_point(a, b, c)?;
                c.state();
            }
        }
        c.traces += 1;
        Ok(())
    }));
    // wide, unnatural splits
    let bases: Vec<f64> = vec![0.0, 1.0, -1.0, 0.5, -0.5, 0.3, 1e3, -1e3 - 0.3, 1e5 + 0.7, -1e6 - 0.1, 1e7 + 0.25, -1e8 + 0.75, 1e9, -2e9, 5e9 + 0.5, 3e10, -3e10 + 0.125, 2147483647.5, 2147483648.0, 4294967296.25];
    let fr3 = [0.0, 1e-9, 0.123456789, 0.5, 0.999, 0.999999999];
    let days3 = days.clone();
    v.push(family("wide_splits", format!("{nd} special days x {} fractions x {} offsets moved from one part to the other, both orders", fr3.len(), bases.len()), nd, move |i, c| {
        for &f in &fr3 {
            for &o in &bases {
                let j = days3[i] as f64 + MJD0;
                let b = (j - o) + f;
                c03_point(o, b, c)?;
                c03_point(b, o, c)?;
                c.states += 2;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    // bounds and unordered values
    let mut ed: Vec<f64> = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300, 1e-300];
    for b in [-32000.0, 1e9, 1.000000001e9, -32001.0, 2e9, -1e6, 1e10] {
        let mut x: f64 = b;
        let mut y: f64 = b;
        for _ in 0..4 {
            ed.push(x);
            ed.push(y);
            x = x.next_up();
            y = y.next_down();
        }
        for e in [1e-9, 1e-6, 0.4, 0.5, 0.6, 1.0, 100.0] {
            ed.push(b + e);
            ed.push(b - e);
        }
    }
    let n = ed.len();
    v.push(family("range_edges", format!("all pairs of {n} values around the ends of the range, including NaN and infinities"), n, move |i, c| {
        for &b in &ed {
            let a = ed[i];
            c.state();
            if a.is_finite() && b.is_finite() && a.abs() < 1e15 && b.abs() < 1e15 {
                c03_point(a, b, c)?;
            } else {
                c.step();
                let r = GregorianDate::from_julian(a, b);
                ensure!(matches!(r, Err(CalendarError::BadJulian)) || (a + b >= -32000.0 && a + b <= 1e9), format!("{a:?},{b:?}"), "from_julian({a:?},{b:?}) = {r:?}, expected an error");
            }
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C04

fn fod_point(f: f64, c: &mut Ctx) -> Result<f64, Fail> {
    let key = format_args!("{f:e}");
    c.step();
    let h = match HMS::from_fraction_of_day(f) {
        Ok(h) => h,
        Err(e) => bail!(key, "from_fraction_of_day({f:?}) rejected: {e}"),
    };
    let top = if f < 1.0 { h.hour < 24 } else { h.hour <= 24 };
    ensure!(top && h.minute < 60 && h.second >= 0.0 && h.second < 60.0, key, "from_fraction_of_day({f:?}) = {h:?}: field out of range");
    let whole = (h.hour as i128 * 3600 + h.minute as i128 * 60) << FX;
    let want = fx(f) * 86400;
    let e = fx_to_f64(whole + fx(h.second) - want);
    ensure!(e.abs() <= 3e-11, key, "from_fraction_of_day({f:?}) = {h:?}: off by {e:e} s");
    let b = h.to_fraction_of_day();
    ensure!((b - f).abs() <= 5e-16, key, "{f:?} -> {h:?} -> {b:?}");
    Ok(fx_to_f64(whole + fx(h.second)))
}

pub fn c04(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let sub = if thorough { 1_000_000i64 } else { 10_000 };
    v.push(family("grid", format!("every multiple of 1/{sub} s of the day ({} fractions), and around every whole second 4 floats to either side; order is checked between neighbours", 86400 * sub), 86400, move |s, c| {
        let mut prev = -1.0;
        for k in 0..sub {
            let f = (s as i64 * sub + k) as f64 / (86400 * sub) as f64;
            let t = fod_point(f, c)?;
            ensure!(t >= prev, format!("{f:e}"), "time of day decreases at fraction {f:?}");
            prev = t;
            c.state();
        }
        let f = s as f64 / 86400.0;
        let mut x = f;
        let mut y = f;
        for _ in 0..4 {
            x = x.next_up();
            if y > 0.0 {
                y = y.next_down();
            }
            fod_point(x, c)?;
            fod_point(y, c)?;
            c.states += 2;
        }
        c.outcome(prev);
        c.traces += 1;
        c.note(|| format!("second {s} of the day, {sub} subdivisions"));
        Ok(())
    }));
    let fr = frac_alphabet(thorough);
    v.push(family("special_fractions", format!("{} special fractions and 1.0", fr.len() + 1), fr.len() + 1, move |i, c| {
        let f = fr.get(i).copied().unwrap_or(1.0);
        fod_point(f, c)?;
        c.state();
        Ok(())
    }));
    v.push(family("to_fraction", "every hour 0..24, minute 0..59 and 66 seconds (all whole ones, leap second, fractions): fraction against exact value", 25, |h, c| {
        for m in 0..60u8 {
            for k in 0..66usize {
                let s = match k {
                    0..=60 => k as f64,
                    61 => 1e-9,
                    62 => 59.999999,
                    63 => 30.123456789,
                    64 => 0.5,
                    _ => 60.999,
                };
                let f = HMS::new(h as u8, m, s).to_fraction_of_day();
                let w = (h as f64 * 3600.0 + m as f64 * 60.0 + s) / 86400.0;
                c.state();
                c.step();
                ensure!((f - w).abs() <= 5e-16, format!("{h}:{m}:{s}"), "HMS({h},{m},{s}) -> {f:?}, expected {w:?}");
                if h < 24 && s < 60.0 {
                    let b = match HMS::from_fraction_of_day(f) {
                        Ok(b) => b,
                        Err(e) => bail!(format!("{h}:{m}:{s}"), "{f:?} rejected: {e}"),
                    };
                    let e = (b.hour as f64 - h as f64) * 3600.0 + (b.minute as f64 - m as f64) * 60.0 + (b.second - s);
                    ensure!(e.abs() <= 1e-10, format!("{h}:{m}:{s}"), "HMS({h},{m},{s}) -> {f:?} -> {b:?}");
                }
            }
        }
        Ok(())
    }));
    let mut bad = vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::MIN_POSITIVE, -5e-324, -1e-300, -1e-17, -1e-9, -0.5, -1.0, -2.0, 1.0f64.next_up(), 1.0 + 1e-12, 1.0 + 1e-9, 1.00001, 1.0000116, 1.5, 2.0, 24.0, 86400.0, 1e10, 1e300];
    bad.extend(dict::around(1.0f64.next_up(), 1e300, &[&|x| x]));
    bad.extend(dict::around(-1e300, -1e-300, &[&|x| x]));
    let n = bad.len();
    v.push(family("rejects", format!("{n} values outside [0,1], NaN and infinities"), n, move |i, c| {
        let f = bad[i];
        c.state();
        c.step();
        let r = HMS::from_fraction_of_day(f);
        ensure!(matches!(r, Err(CalendarError::BadFract)), format!("{f:?}"), "from_fraction_of_day({f:?}) = {r:?}, expected BadFract");
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C05

fn stamp_secs(g: &GregorianDateHMS) -> i128 {
    let d = &g.date;
    ((mjd_of(d.year as i64, d.month as i64, d.day as i64) as i128 * 86400 + g.hms.hour as i128 * 3600 + g.hms.minute as i128 * 60) << FX) + fx(g.hms.second)
}

/// The stamp of an instant against the exact sum of the parts, and back.
fn stamp_point(a: f64, b: f64, c: &mut Ctx) -> Result<(i128, f64), Fail> {
    let key = format_args!("{a:e},{b:e}");
    let g = match GregorianDateHMS::from_julian(a, b) {
        Ok(g) => g,
        Err(e) => bail!(key, "from_julian({a:?},{b:?}) rejected: {e}"),
    };
    c.state();
    c.transitions += 2;
    let m = fx(a) + fx(b) - fx(MJD0);
    let (got, want) = (stamp_secs(&g), m * 86400);
    let small = a.min(b).abs(); // what half a day is taken off
    let tol = 86400.0 * 4.0 * f64::EPSILON * (1.0 + small) + 3e-11;
    let e = fx_to_f64(got - want);
    ensure!(e.abs() <= tol, key, "JD {a:?}+{b:?} -> {g} off by {e:e} s");
    ensure!(g.hms.hour < 24 && g.hms.minute < 60 && g.hms.second >= 0.0 && g.hms.second < 60.0, key, "JD {a:?}+{b:?} -> {g:?}: field out of range");
    let (x, y) = g.to_julian();
    let back = fx_to_f64(fx(x) + fx(y) - fx(a) - fx(b));
    ensure!(back.abs() <= 3e-15 * (1.0 + fx_to_f64(m).abs()) + tol / 86400.0, key, "JD {a:?}+{b:?} -> {g} -> {x:?}+{y:?}: off by {back:e} day");
    Ok((got, tol))
}

pub fn c05(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let mut days: Vec<i64> = special_days().into_iter().filter(|d| *d < 400_000).collect();
    if !thorough {
        // keep every second plus the modern ones
        days = days.into_iter().enumerate().filter(|(i, d)| i % 2 == 0 || (51500..61000).contains(d)).map(|x| x.1).collect();
    }
    let nd = days.len();
    v.push(family("seconds_of_special_days", format!("{nd} special days: every second of the day and 200 ms steps around midnight, forms (midnight JD, fraction) and (2400000.5, MJD): stamp, order and return conversion"), nd, move |i, c| {
        let m = days[i] as f64;
        let form = c.choose(2);
        // 86400 whole seconds, then fine steps across the following midnight
        let mut prev: Option<i128> = None;
        let total = 86400 + 2000;
        for k in 0..total {
            let f = if k < 86400 { k as f64 / 86400.0 } else { (86400.0 - 200.0 + (k - 86400) as f64 * 0.2) / 86400.0 };
            if k == 86400 {
                prev = None
            }
            let (a, b) = if form == 0 { (m + MJD0, f) } else { (MJD0, m + f) };
            let key = format_args!("{a:e},{b:e}");
            let want = (fx(a) + fx(b) - fx(MJD0)) * 86400;
            if fx_to_f64(fx(a) + fx(b)) > 1e9 {
                break;
            }
            let g = match GregorianDateHMS::from_julian(a, b) {
                Ok(g) => g,
                Err(e) => bail!(key, "from_julian({a:?},{b:?}) rejected: {e}"),
            };
            c.step();
            c.state();
            let got = stamp_secs(&g);
            let e = fx_to_f64(got - want);
            // rounding of the smaller part, of the day fraction and of the seconds
            let tol = 86400.0 * 4.0 * f64::EPSILON * (1.0 + a.abs().min(b.abs())) + 3e-11;
            ensure!(e.abs() <= tol, key, "JD {a:?}+{b:?} -> {g} off by {e:e} s");
            ensure!(g.hms.hour < 24 && g.hms.minute < 60 && g.hms.second >= 0.0 && g.hms.second < 60.0, key, "JD {a:?}+{b:?} -> {g:?}: field out of range");
            if let Some(p) = prev {
                ensure!(got > p, key, "stamps do not increase at JD {a:?}+{b:?}: {g}");
            }
            prev = Some(got);
            let (x, y) = g.to_julian();
            let back = fx_to_f64(fx(x) + fx(y) - fx(a) - fx(b));
            ensure!(back.abs() <= 3e-15 * (1.0 + m.abs()) + tol / 86400.0, key, "JD {a:?}+{b:?} -> {g} -> {x:?}+{y:?}: off by {back:e} day");
        }
        c.outcome(m);
        c.traces += 1;
        c.note(|| format!("MJD {m}, 86400 whole seconds and 2000 steps of 0.2 s across the next midnight"));
        Ok(())
    }));
    let (lo, hi) = if thorough { (-2432000i64, 100_000_000) } else { (-2432000i64, 3_000_000) };
    const CH: i64 = 5000;
    let times: Vec<(u8, u8, f64)> = vec![(0, 0, 0.0), (0, 0, 1e-6), (5, 59, 59.999), (12, 0, 0.0), (11, 59, 59.9999), (18, 30, 15.25), (23, 59, 59.9999)];
    v.push(family("every_day", format!("every day MJD {lo}..{hi} x {} times of day: stamp to Julian and back", times.len()), ((hi - lo) / CH) as usize, move |i, c| {
        let mut d = Day::from_mjd(lo + i as i64 * CH);
        for _ in 0..CH {
            for &(h, m, s) in &times {
                let g = GregorianDateHMS { date: gd(&d), hms: HMS::new(h, m, s) };
                let want = stamp_secs(&g);
                let (x, y) = g.to_julian();
                let key = format_args!("{} {h} {m} {s}", d.mjd);
                let e = fx_to_f64((fx(x) + fx(y) - fx(MJD0)) * 86400 - want);
                let tol = 1e-10 + 86400.0 * f64::EPSILON * d.mjd.unsigned_abs() as f64;
                ensure!(e.abs() <= tol, key, "{g} -> JD {x:?}+{y:?}: off by {e:e} s");
                let b = match GregorianDateHMS::from_julian(x, y) {
                    Ok(b) => b,
                    Err(e) => bail!(key, "{g} -> {x:?}+{y:?} rejected: {e}"),
                };
                let e = fx_to_f64(stamp_secs(&b) - want);
                ensure!(e.abs() <= 4.0 * tol, key, "{g} -> JD {x:?}+{y:?} -> {b}: off by {e:e} s");
                c.state();
                c.transitions += 2;
            }
            d.next();
        }
        c.traces += 1;
        Ok(())
    }));
    // stamps as a caller would make them, leap seconds included
    let sd: Vec<i64> = special_days();
    let secs: usize = if thorough { 61 * 4 } else { 61 };
    v.push(family("constructed", format!("{} special days x every hour and minute x {secs} seconds up to 60.99 (a leap second): the Julian date of the stamp is that of its date plus the time of day", sd.len()), sd.len(), move |i, c| {
        let d = Day::from_mjd(sd[i]);
        let date = gd(&d);
        let (a, b) = date.to_julian();
        ensure!(fx(a) + fx(b) == fx(MJD0) + fx(d.mjd as f64), format!("{}", d.mjd), "{date} -> {a:?}+{b:?}");
        let tol = 1e-10 + 86400.0 * f64::EPSILON * d.mjd.unsigned_abs() as f64;
        for (h, m) in (0..24u8).flat_map(|h| (0..60u8).map(move |m| (h, m))) {
            for k in 0..secs {
                let s = (k % 61) as f64 + [0.0, 0.99, 0.5, 0.000001][(k / 61 + if secs == 61 { k + h as usize + i } else { 0 }) % 4];
                let g = GregorianDateHMS { date, hms: HMS::new(h, m, s) };
                let (x, y) = g.to_julian();
                let e = fx_to_f64((fx(x) + fx(y) - fx(MJD0)) * 86400 - stamp_secs(&g));
                ensure!(e.abs() <= tol, format_args!("{} {h} {m} {s}", d.mjd), "{g} -> JD {x:?}+{y:?}: off by {e:e} s");
                c.state();
                c.step();
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let (lo, hi) = (-2432000i64, if thorough { 60_000_000 } else { 1_000_000 });
    v.push(family("forms", format!("every day MJD {lo}..{hi}, the time of day differing from day to day, in each of {N_SPLIT} two-part forms: stamp against the exact sum, and back; and one second later gives a later stamp"), ((hi - lo) / 1000) as usize, move |i, c| {
        for m in lo + i as i64 * 1000..lo + (i as i64 + 1) * 1000 {
            let f = if m % 4 == 0 { (m % 86400) as f64 / 86400.0 } else { (m as f64 * 0.618033988749895).rem_euclid(1.0) }.abs();
            for k in 0..N_SPLIT {
                let (a, b) = split(m, f, k);
                let (p, _) = stamp_point(a, b, c)?;
                let (q, t) = stamp_point(a, b + 1.0 / 86400.0, c)?;
                ensure!(t > 0.2 || q > p, format_args!("{a:e},{b:e}"), "the stamp of JD {a:?}+{b:?} is not before that of a second later");
            }
        }
        c.traces += 1;
        Ok(())
    }));
    // closest to midnights, noons and whole seconds
    let mut ds: Vec<f64> = dict::numbers(0.0, 0.4, &[&|x| x.abs(), &|x| x.abs() / 86400.0]);
    ds.extend((1..=60).map(|k| 2f64.powi(-k)));
    ds.push(0.0);
    ds.sort_by(f64::total_cmp);
    ds.dedup();
    let bs: Vec<f64> = [0.0, 0.5, 0.25, 1.0, 1.0 / 86400.0, 43199.0 / 86400.0, 86399.0 / 86400.0, 59.0 / 1440.0, 1.0 / 24.0].to_vec();
    let days = special_days();
    let days: Vec<i64> = days.into_iter().filter(|d| (-2_400_000..if thorough { 900_000_000 } else { 4_000_000 }).contains(d)).collect();
    let (nd, nb, ns) = (days.len(), bs.len(), ds.len());
    v.push(family("around_whole_times", format!("{nd} days x {nb} times of day (midnights, noon, whole hours, minutes, seconds) approached from both sides to each of {ns} distances (2^-k, powers of ten, source literals, in days and seconds), the instant given as the whole time plus or minus the distance: stamps right, in order, and back"), nd, move |i, c| {
        let m = days[i] as f64;
        for &b in &bs {
            for form in 0..7 {
                let mut prev: Option<(i128, f64)> = None;
                for k in -(ns as i64) + 1..ns as i64 {
                    let d = ds[k.unsigned_abs() as usize] * if k < 0 { -1.0 } else { 1.0 };
                    let (x, y) = match form {
                        0 => (m + MJD0 + b, d),
                        1 => (m + MJD0, b + d),
                        2 => (d, m + MJD0 + b),
                        3 => (m + MJD0 + 40000.5, (b - 40000.5) + d),
                        4 => (1900000.25 + d, m + b + 500000.25),
                        5 => (-777.0 + d, m + MJD0 + b + 777.0),
                        _ => (MJD0, m + b + d),
                    };
                    let (g, t) = stamp_point(x, y, c)?;
                    if let Some((p, pt)) = prev {
                        ensure!(fx_to_f64(p - g) <= t + pt, format_args!("{x:e},{y:e}"), "stamps go backwards at JD {x:?}+{y:?}");
                    }
                    prev = Some((g, t));
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C06

pub fn parse_date(s: &str) -> Option<(i64, i64, i64)> {
    // [-]Y..Y-MM-DD
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let p: Vec<&str> = t.split('-').collect();
    if p.len() != 3 || p[1].len() != 2 || p[2].len() != 2 || s.len() - 6 < 4 {
        return None;
    }
    if !p.iter().all(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())) {
        return None;
    }
    let y: i64 = p[0].parse().ok()?;
    Some((if neg { -y } else { y }, p[1].parse().ok()?, p[2].parse().ok()?))
}

pub fn parse_time(s: &str) -> Option<(u32, u32, f64)> {
    // HH:MM:SS.ffffff
    let p: Vec<&str> = s.split(':').collect();
    if p.len() != 3 || p[0].len() != 2 || p[1].len() != 2 || p[2].len() != 9 || p[2].as_bytes()[2] != b'.' {
        return None;
    }
    if !s.bytes().all(|b| b.is_ascii_digit() || b == b':' || b == b'.') {
        return None;
    }
    Some((p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?))
}

pub fn time_text(h: u8, m: u8, s: f64, t: &str, key: impl std::fmt::Display) -> Res {
    let Some((ph, pm, ps)) = parse_time(t) else { bail!(key, "HMS({h},{m},{s:?}) printed as {t:?}: not HH:MM:SS.ffffff") };
    ensure!(pm < 60 && (ps < 60.0 || (s >= 60.0 && ps < 61.0 + 1e-9)), key, "HMS({h},{m},{s:?}) printed as {t:?}: field out of range");
    let e = (ph as f64 - h as f64) * 3600.0 + (pm as f64 - m as f64) * 60.0 + (ps - s);
    ensure!(e.abs() <= 0.5000001e-6, key, "HMS({h},{m},{s:?}) printed as {t:?}: off by {e:e} s");
    Ok(())
}

pub fn c06(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let hi: i64 = if thorough { MJD_HI } else { 20_000_000 };
    const CH: i64 = 20_000;
    v.push(family("dates", format!("every day MJD {MJD_LO}..{hi} and the last days of the range: printed date parsed back, and text order equals time order for years 0..9999"), ((hi - MJD_LO) / CH) as usize + 1, move |i, c| {
        let mut d = if MJD_LO + i as i64 * CH > hi - CH { Day::from_mjd(MJD_HI - CH) } else { Day::from_mjd(MJD_LO + i as i64 * CH) };
        let mut prev = String::new();
        for _ in 0..CH {
            let t = gd(&d).to_string();
            let key = format_args!("{}", d.mjd);
            ensure!(parse_date(&t) == Some((d.y, d.m, d.d)), key, "{d:?} printed as {t:?}");
            if d.y >= 0 && d.y < 9999 && !prev.is_empty() {
                ensure!(t > prev, key, "text order: {prev:?} then {t:?}");
            }
            prev = if d.y >= 0 { t } else { String::new() };
            c.state();
            c.step();
            d.next();
        }
        c.outcome(i as f64);
        c.traces += 1;
        c.note(|| format!("{CH} days up to {prev}"));
        Ok(())
    }));
    let mut subs = vec![0.0, 1e-9, 4e-7, 4.999e-7, 5.001e-7, 6e-7, 1e-6, 0.001, 0.1, 0.25, 0.4999994, 0.4999996, 0.5, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.99999, 0.999999, 0.9999994, 0.9999996, 0.9999999, 0.99999999, 0.999999999];
    subs.extend(dict::around(0.0, 0.9999999999, &[&|x| x]));
    let fine = if thorough { 10_000 } else { 100 };
    subs.extend((1..fine).map(|k| k as f64 / fine as f64));
    subs.extend((1..110).flat_map(|k| [k as f64 * 1e-8 + 5e-10, 1.0 - k as f64 * 1e-8 - 5e-10]));
    let ns = subs.len();
    v.push(family("times", format!("every second of the day plus second 60 of every minute x {ns} sub-second parts: printed time parsed back to within half a microsecond, all fields in range"), 1440, move |i, c| {
        let (h, m) = ((i / 60) as u8, (i % 60) as u8);
        for s in 0..61 {
            for &u in &subs {
                let x = s as f64 + u;
                if x >= 60.0 && s < 60 {
                    continue;
                }
                if x >= 60.9999995 {
                    continue; // would need a 62nd second
                }
                let t = HMS::new(h, m, x).to_string();
                time_text(h, m, x, &t, &format!("{h}:{m}:{x:?}"))?;
                c.state();
                c.step();
            }
        }
        c.outcome(i as f64);
        Ok(())
    }));
    v.push(family("fractions", "time of day of k/N for N = 24..2000 and k < N, printed and parsed back (ratios that are not exact in binary)", 1977, |i, c| {
        let n = i + 24;
        for k in 0..n {
            let f = k as f64 / n as f64;
            let Ok(h) = HMS::from_fraction_of_day(f) else { bail!(format!("{k}/{n}"), "{k}/{n} rejected") };
            let t = h.to_string();
            let key = format_args!("{k}/{n}");
            let Some((ph, pm, ps)) = parse_time(&t) else { bail!(key, "{k}/{n} of a day printed as {t:?}") };
            let e = ph as f64 * 3600.0 + pm as f64 * 60.0 + ps - 86400.0 * k as f64 / n as f64;
            ensure!(ph <= 24 && pm < 60 && ps < 60.0 && e.abs() <= 0.50001e-6, key, "{k}/{n} of a day printed as {t:?}: off by {e:e} s");
            c.state();
            c.step();
        }
        Ok(())
    }));
    v.push(family("stamps", "dates (every 41st day of MJD -700000..900000) x 96 times, leap seconds among them: the printed stamp is the printed date, one space, the printed time", 400, |i, c| {
        for k in 0..100 {
            let d = Day::from_mjd(-700_000 + (i * 100 + k) as i64 * 40 + (i as i64 % 40));
            for n in 0..96usize {
                let h = (n % 24) as u8;
                let m = [(n * 7 % 60) as u8, 59, 0, 30][n / 24];
                let s = [0.0, 59.9999999, 12.345678, 59.999999, 60.0, 60.5, 60.999999][n % 7];
                let g = GregorianDateHMS { date: gd(&d), hms: HMS::new(h, m, s) };
                let t = g.to_string();
                let key = format_args!("{} {h} {m} {s}", d.mjd);
                let Some((a, b)) = t.split_once(' ') else { bail!(key, "{g:?} printed as {t:?}") };
                ensure!(parse_date(a) == Some((d.y, d.m, d.d)), key, "{g:?} printed as {t:?}");
                time_text(h, m, s, b, key)?;
                c.state();
                c.step();
            }
        }
        Ok(())
    }));
    v
}
