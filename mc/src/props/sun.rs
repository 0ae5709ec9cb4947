//! C25, C26: the sun-angle calculator and its report.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::calendar::{GregorianDate, HMS};
use tofas::ellipsoid::Geodetic360;
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResult, SunAngleResultBundle};

pub fn params(y: i64, m: i64, d: i64, h: u8, mi: u8, s: f64, lat: f64, lon: f64, height: f64) -> SunAngleParameters {
    SunAngleParameters {
        date: GregorianDate { year: y as i32, month: m as i32, day: d as i32 },
        time: HMS { hour: h, minute: mi, second: s },
        position: Geodetic360 { lat, lon, height },
    }
}

const PLACES: [(f64, f64, f64); 18] = [
    (0.0, -120.0, 0.0),
    (48.8566, 2.3522, 35.0),
    (-33.8688, 151.2093, 58.0),
    (90.0, 0.0, 0.0),
    (-90.0, 0.0, 2835.0),
    (89.9999, 45.0, 10.0),
    (0.0, 0.0, 0.0),
    (0.0, 180.0, 0.0),
    (0.0, -180.0, 1e5),
    (23.4393, 77.0, 300.0),
    (-23.4393, -70.4, 2000.0),
    (66.5607, 25.7, 200.0),
    (27.9881, 86.925, 8848.86),
    (31.5, 35.5, -430.5),
    (-54.8, -68.3, 0.0),
    (71.0, 179.9999, 0.0),
    (-0.5, 359.0, 10.0),
    (45.0, -190.0, 4e5),
];

const POLE: (f64, f64) = (0.0349282 * AS, 0.4833163 * AS);
const DUT1: f64 = -0.072073685;

/// One calculator, one offset, against the composed reference.
fn point(day: &Day, hms: (u8, u8, f64), place: (f64, f64, f64), delta: f64, c: &mut Ctx) -> Res {
    let (lat, lon, h) = place;
    let p = params(day.y, day.m, day.d, hms.0, hms.1, hms.2, lat, lon, h);
    let key = format_args!("{:04}-{:02}-{:02} {:?} {place:?} {delta:?}", day.y, day.m, day.d, hms);
    let r = SunAngleCalculator::new(&p).compute(delta);
    c.state();
    c.step();
    let fod = (hms.0 as f64 * 3600.0 + hms.1 as f64 * 60.0 + hms.2) / 86400.0;
    // the instants
    let one = 1i128 << FX;
    let utc = (day.mjd as i128) * one + fx(hms.0 as f64 * 3600.0 + hms.1 as f64 * 60.0) / 86400 + fx(hms.2) / 86400 + fx(delta) / 86400 + fx(MJD0);
    let ex = |x: (f64, f64)| fx(x.0) + fx(x.1);
    let dat = tai_utc(day.mjd, fod).unwrap_or(0.0);
    let late = |x: i128, s: f64| fx_to_f64(x - utc) * 86400.0 - s;
    let tol = 3e-6; // rounding of a two-part date with a modified Julian day number
    ensure!((r.dat - dat).abs() < 1e-10, key, "TAI-UTC used at {key} is {:?}, expected {dat:?}", r.dat);
    ensure!(r.delta_s == delta, key, "offset reported at {key} is {:?}", r.delta_s);
    for (nm, x, s) in [
        ("UTC", ex(r.utc.0), 0.0),
        ("reported Julian date", fx(r.jd0) + fx(r.jd1), 0.0),
        ("TAI", ex(r.tai.0), dat),
        ("TT", ex(r.tt.0), dat + 32.184),
        ("UT1", ex(r.ut1.0), DUT1),
    ] {
        ensure!(late(x, s).abs() < tol, key, "{nm} at {key} is off by {:e} s", late(x, s));
    }
    // everything downstream, from the instants the calculator reports
    let (tt, ut1) = (r.tt.0, r.ut1.0);
    ensure!(adiff(r.era, era(ut1.0, ut1.1)).abs() < 2e-11, key, "Earth rotation angle at {key} is {:?}, expected {:?}", r.era, era(ut1.0, ut1.1));
    let e = epv(days_j2000(tt.0, tt.1));
    ensure!(vdiff(&r.earth, &e.hp) < 1e-11, key, "Earth position at {key} is {:?}, expected {:?}", r.earth, e.hp);
    let s = mulv(&c2t(tt, ut1, POLE.0, POLE.1), &e.hp.map(|x| -x * 149597870700.0));
    ensure!(vdiff(&r.sun_e, &s) < 8.0, key, "Sun at {key} is {:?} m, expected {s:?}", r.sun_e);
    let (a, f) = wgs84();
    let xyz = geodetic_to_xyz(a, f, lon * DEG, lat * DEG, h);
    ensure!(vdiff(&r.p, &xyz) < 1e-7, key, "position at {key} is {:?}, expected {xyz:?}", r.p);
    let z = vangle(&normal(lon * DEG, lat * DEG), &s);
    ensure!((r.sza - z).abs() < 1e-7, key, "zenith angle at {key} is {:?}, expected {z:?}", r.sza);
    c.outcome(r.sza);
    Ok(())
}

/// The same angle by an almanac that shares nothing with the code.
fn almanac(day: &Day, fod: f64, place: (f64, f64, f64), sza: f64) -> f64 {
    let ut = day.mjd as f64 - 51544.5 + fod;
    let t = (ut + 65.0 / 86400.0) / 36525.0;
    let (s, _) = meeus_sun(t);
    let th = gmst(ut) + place.1 * DEG;
    let z = [place.0.to_radians().cos() * th.cos(), place.0.to_radians().cos() * th.sin(), place.0.to_radians().sin()];
    (vangle(&z, &s) - sza) / DEG
}

/// Observers near the point below the Sun, its antipode and the terminator at
/// the instant of the parameters.
fn under_the_sun(p: &SunAngleParameters, i: usize) -> Vec<(f64, f64, f64)> {
    let s = SunAngleCalculator::new(p).compute(0.0).sun_e;
    let n = (s[0] * s[0] + s[1] * s[1] + s[2] * s[2]).sqrt();
    let (lat, lon) = ((s[2] / n).asin() / DEG, s[1].atan2(s[0]) / DEG);
    let mut v = vec![];
    for (k, r) in [0.0, 1e-7, 1e-5, 1e-4, 0.001, 0.004, 0.006, 0.01, 0.02, 0.03, 0.07, 0.1, 0.3, 0.5, 1.0, 2.0, 85.0, 89.9, 89.995, 90.0, 90.005, 90.1, 95.0].into_iter().enumerate() {
        let az = (i * 5 + k) as f64 * 1.2566;
        let la = lat + r * az.cos();
        // near enough for small distances; any place will do
        let lo = lon + r * az.sin() / lat.to_radians().cos();
        let lo = if lo > 180.0 { lo - 360.0 } else if lo < -180.0 { lo + 360.0 } else { lo };
        let h = [0.0, 1234.5][(i + k) % 2];
        if la.abs() <= 90.0 {
            v.push((la, lo, h));
            v.push((-la, if lo > 0.0 { lo - 180.0 } else { lo + 180.0 }, h));
        }
    }
    v
}

pub fn c25(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    // 1900-03-01 .. 2099
    let (lo, hi) = (15079i64, 88069i64);
    const T: [(u8, u8, f64); 8] = [(0, 0, 0.0), (12, 0, 0.0), (6, 30, 15.5), (18, 59, 59.999999), (23, 59, 59.0), (3, 7, 0.001), (9, 0, 30.0), (21, 45, 12.0)];
    let nt = if thorough { 8 } else { 2 };
    v.push(family("every_day", format!("every day 1900-03-01 to 2099-12-31 x {nt} times of day, place and offset varying with the day: instants, Earth rotation, Earth position, Sun vector, observer and angle against the composed reference"), (hi - lo) as usize, move |i, c| {
        let k = c.choose(nt);
        let d = Day::from_mjd(lo + i as i64);
        let t = T[(k + i / 7) % 8];
        let de = [0.0, 600.0, -600.0, 0.5, 43200.0, -0.001, 86399.0][(i + 3 * k) % 7];
        point(&d, t, PLACES[(i * 5 + k) % PLACES.len()], de, c)?;
        c.note(|| format!("{d:?} {t:?} {:?} offset {de}", PLACES[(i * 5 + k) % PLACES.len()]));
        c.traces += 1;
        Ok(())
    }));
    let days: Vec<Day> = {
        let mut v = vec![];
        for y in [1900i64, 1930, 1959, 1960, 1965, 1968, 1971, 1972, 1999, 2000, 2007, 2012, 2016, 2017, 2024, 2050, 2099] {
            for (m, d) in [(1, 1), (2, 28), (3, 1), (3, 20), (4, 5), (6, 21), (6, 30), (7, 1), (9, 22), (12, 21), (12, 31)] {
                v.push(Day::from_ymd(y, m, d));
            }
        }
        v.push(Day::from_ymd(2000, 2, 29));
        v
    };
    let nd = days.len();
    {
        let days = days.clone();
        v.push(family("places_and_times", format!("{nd} days (solstices, equinoxes, year ends, TAI-UTC eras) x {} places x 8 times x 5 offsets", PLACES.len()), nd * PLACES.len(), move |i, c| {
            let t = c.pick(&T);
            let de = c.pick(&[0.0, -600.0, 60.0, 7200.25, -86400.0]);
            point(&days[i / PLACES.len()], t, PLACES[i % PLACES.len()], de, c)
        }));
    }
    let st = if thorough { 1.0 } else { 6.0 };
    let n = 361;
    v.push(family("globe", format!("latitudes -90..90 every half degree, longitudes -180..360 every {st} degrees x 6 instants x 2 heights"), n, move |i, c| {
        let lat = -90.0 + 0.5 * i as f64;
        let mut lon = -180.0;
        while lon <= 360.0 {
            for (k, (y, m, d)) in [(2007, 4, 5), (2000, 1, 1), (1966, 6, 21), (2024, 12, 21), (1955, 9, 23), (2010, 3, 20)].into_iter().enumerate() {
                for h in [0.0, 2500.0] {
                    point(&Day::from_ymd(y, m, d), T[k], (lat, lon, h), 0.0, c)?;
                }
            }
            lon += st;
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("almanac", "every day 1900-2099 x 4 times x 4 places: zenith angle within 0.05 degree of an independent almanac (Meeus Sun, sidereal time)", (hi - lo) as usize, move |i, c| {
        let d = Day::from_mjd(lo + i as i64);
        for (k, f) in [0.0, 0.25, 0.625, 0.9].into_iter().enumerate() {
            let pl = PLACES[(i + 4 * k) % PLACES.len()];
            let h = HMS::from_fraction_of_day(f).ok().unwrap();
            let p = params(d.y, d.m, d.d, h.hour, h.minute, h.second, pl.0, pl.1, pl.2);
            let r = SunAngleCalculator::new(&p).compute(0.0);
            c.state();
            c.step();
            let e = almanac(&d, f, pl, r.sza);
            c.outcome(e);
            ensure!(e.abs() < 0.05, format!("{} {f}", d.mjd), "zenith angle on {d:?} + {f} at {pl:?} is {} degrees, {e} degrees from the almanac", r.sza / DEG);
        }
        Ok(())
    }));
    // a leap second is a time of day
    v.push(family("leap_seconds", "the 27 days that ended in a leap second x 8 instants within it x 6 places x 4 offsets: the instant is the exact sum, with the TAI-UTC of the day that ends", 27, |i, c| {
        const L: [(i64, i64); 27] = [
            (1972, 6), (1972, 12), (1973, 12), (1974, 12), (1975, 12), (1976, 12), (1977, 12), (1978, 12), (1979, 12), (1981, 6), (1982, 6), (1983, 6), (1985, 6), (1987, 12),
            (1989, 12), (1990, 12), (1992, 6), (1993, 6), (1994, 6), (1995, 12), (1997, 6), (1998, 12), (2005, 12), (2008, 12), (2012, 6), (2015, 6), (2016, 12),
        ];
        let (y, m) = L[i];
        let d = Day::from_ymd(y, m, month_len(y, m));
        for s in [59.0, 59.999, 60.0, 60.000001, 60.25, 60.5, 60.9, 60.999999] {
            for pl in PLACES.into_iter().step_by(3) {
                for de in [0.0, 0.5, -1.0, 600.0] {
                    point(&d, (23, 59, s), pl, de, c)?;
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("offsets", "offsets of every tenth power from 1e-9 to 1e7 s, multiples of a day, both signs, x 24 days x 4 times of day", 24, |i, c| {
        let d = Day::from_ymd(1901 + 8 * i as i64, (i as i64 * 5) % 12 + 1, (i as i64 * 7) % 28 + 1);
        let mut ds: Vec<f64> = (-9..=7).map(|k| 10f64.powi(k)).collect();
        ds.extend([86399.0, 86399.999999, 86400.0, 86400.000001, 86401.0, 129600.0, 172800.0, 604800.0, 2592000.0, 31557600.0, 43199.5, 21600.0, 3600.0, 59.0, 60.0, 61.0]);
        for x in ds {
            for de in [x, -x] {
                for t in [(0, 0, 0.0), (12, 0, 0.0), (23, 59, 59.75), (7, 8, 9.125)] {
                    point(&d, t, PLACES[i % PLACES.len()], de, c)?;
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let ns = if thorough { 400_000 } else { 20_000 };
    v.push(family("offset_sweep", format!("{ns} offsets spread evenly from -1e7 to 1e7 s and as many from -1e5 to 1e5, none of them whole, over 24 days and 4 times of day"), ns, move |i, c| {
        let d = Day::from_ymd(1903 + 8 * (i % 24) as i64, (i as i64 * 5) % 12 + 1, (i as i64 * 7) % 28 + 1);
        let x = (i as f64 + 0.37) / ns as f64 * 2.0 - 1.0;
        let t = [(0, 0, 0.0), (12, 0, 0.0), (23, 59, 59.75), (7, 8, 9.125)][i / 24 % 4];
        point(&d, t, PLACES[i % PLACES.len()], x * 1e7, c)?;
        point(&d, t, PLACES[(i + 7) % PLACES.len()], x * 1e5, c)
    }));
    let mut ls: Vec<f64> = dict::numbers(-360.0, 360.0, &[&|x| x, &|x| x / DEG]);
    ls.retain(|x| x.abs() > 1e-9 || *x == 0.0);
    let nl = ls.len();
    v.push(family("literals", format!("{nl} values around source literals (as degrees and as radians), used in turn as latitude, longitude, height, offset and second"), nl, move |i, c| {
        let x = ls[i];
        let d = Day::from_ymd(2007, 4, 5);
        let d2 = Day::from_ymd(1969, 7, 20);
        if x.abs() <= 90.0 {
            point(&d, (0, 0, 0.0), (x, -120.0, 0.0), 0.0, c)?;
            point(&d2, (7, 0, 0.0), (x, 33.0, 1500.0), 0.0, c)?;
        }
        point(&d2, (20, 17, 40.0), (0.5, x, 0.0), 0.0, c)?;
        point(&d, (0, 0, 0.0), (10.0, -120.0, x * 1e3), 0.0, c)?;
        point(&d, (0, 0, 0.0), (-60.0, -120.0, x), 0.0, c)?;
        point(&d2, (12, 0, 0.0), (10.0, 20.0, x), x, c)?;
        if x >= 0.0 && x < 60.0 {
            point(&d, (1, 2, x), (10.0, 20.0, 0.0), 0.0, c)?;
        }
        if x.abs() < 100.0 && x.fract() == 0.0 {
            point(&Day::from_ymd(2000 + x as i64, 2, 3), (1, 2, 3.0), (10.0, 20.0, 0.0), 0.0, c)?;
        }
        Ok(())
    }));
    let big: Vec<f64> = dict::numbers(-1e7, 1e7, &[&|x| x]).into_iter().filter(|x| x.abs() > 360.0).collect();
    let nb = big.len();
    v.push(family("large_literals", format!("{nb} larger values around source literals as height, offset in seconds, and year"), nb, move |i, c| {
        let x = big[i];
        let d = Day::from_ymd(2007, 4, 5);
        point(&d, (0, 0, 0.0), (33.0, -120.0, x), 0.0, c)?;
        point(&d, (6, 0, 0.0), (33.0, -120.0, 0.0), x, c)?;
        point(&Day::from_ymd(1972, 6, 30), (6, 0, 0.0), (-33.0, 10.0, 0.0), x, c)?;
        if x.fract() == 0.0 && (1900.0..2300.0).contains(&x) {
            for (m, dd) in [(1, 1), (6, 30), (12, 31)] {
                point(&Day::from_ymd(x as i64, m, dd), (1, 2, 3.0), (10.0, 20.0, 0.0), 0.0, c)?;
            }
        }
        Ok(())
    }));
    let nz = if thorough { 72989 } else { 3000 };
    v.push(family("under_the_sun", format!("{nz} days over 1900-2099, at a time of day differing from day to day: observers from 0 to 2 degrees (and at 85 to 95) from the point below the Sun and from its antipode, in 5 directions, in the two heights"), nz, move |i, c| {
        let d = Day::from_mjd(15079 + (i as i64 * 72989) / nz as i64);
        let s = ((i as f64 * 0.618033988749895).fract() * 86400.0).floor();
        let t = ((s / 3600.0).floor() as u8, ((s % 3600.0) / 60.0).floor() as u8, s % 60.0);
        for pl in under_the_sun(&params(d.y, d.m, d.d, t.0, t.1, t.2, 0.0, 0.0, 0.0), i) {
            point(&d, t, pl, 0.0, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("defaults", "the documented default parameters (2007-04-05 00:00:00, latitude 0, longitude -120, height 0)", 1, |_, c| {
        let p = SunAngleParameters::default();
        c.state();
        c.step();
        let ok = p.date == GregorianDate { year: 2007, month: 4, day: 5 } && p.time.hour == 0 && p.time.minute == 0 && p.time.second == 0.0 && p.position.lat == 0.0 && p.position.lon == -120.0 && p.position.height == 0.0;
        ensure!(ok, "default", "default parameters are {p:?}");
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C26

fn num(s: &str) -> Option<f64> {
    s.trim().trim_end_matches('°').trim().parse().ok()
}

/// Label -> value text, for a report made of "Label:  value" lines.
pub fn report_line<'a>(t: &'a str, label: &str) -> Option<&'a str> {
    let mut it = t.lines().filter_map(|l| l.strip_prefix(label)?.strip_prefix(':'));
    let r = it.next()?;
    if it.next().is_some() {
        return None;
    }
    Some(r.trim())
}

pub fn xyz(s: &str) -> Option<[f64; 3]> {
    let x = s.find("X=")?;
    let y = s.find("Y=")?;
    let z = s.find("Z=")?;
    Some([num(&s[x + 2..y])?, num(&s[y + 2..z])?, num(&s[z + 2..])?])
}

pub fn report_conforms(t: &str, p: &SunAngleParameters, r: &SunAngleResult, key: &dyn std::fmt::Display) -> Res {
    macro_rules! line {
        ($l:expr) => {
            match report_line(t, $l) {
                Some(x) => x,
                None => bail!(key, "report for {key} has not exactly one line {:?}:\n{t}", $l),
            }
        };
    }
    macro_rules! n {
        ($s:expr) => {
            match num($s) {
                Some(x) => x,
                None => bail!(key, "report for {key}: {:?} is not a number:\n{t}", $s),
            }
        };
    }
    let near = |x: f64, y: f64, d: f64| (x - y).abs() <= d * 0.5001 + y.abs() * 3e-16;
    ensure!(line!("Date") == p.date.to_string(), key, "report for {key}: date line {:?}", line!("Date"));
    let tl = line!("Time");
    let Some((a, b)) = tl.split_once(' ') else { bail!(key, "report for {key}: time line {tl:?}") };
    ensure!(a == p.time.to_string(), key, "report for {key}: time line {tl:?}");
    let Some(b) = b.trim().strip_suffix('s') else { bail!(key, "report for {key}: time line {tl:?}") };
    ensure!(near(n!(b), r.delta_s, 1e-6) && (b.starts_with('+') || b.starts_with('-')), key, "report for {key}: offset {b:?}, expected {}", r.delta_s);
    let jl = line!("Julian date");
    let v: Vec<f64> = jl.split(['=', '+']).filter_map(num).collect();
    ensure!(v.len() == 3 && near(v[0], r.jd0 + r.jd1, 1e-6) && near(v[1], r.jd0, 1e-6) && near(v[2], r.jd1, 1e-6), key, "report for {key}: Julian date line {jl:?}, expected {} = {} + {}", r.jd0 + r.jd1, r.jd0, r.jd1);
    ensure!(line!("Position") == p.position.to_string(), key, "report for {key}: position line {:?}", line!("Position"));
    let Some(pl) = t.lines().find(|l| l.trim_start().starts_with("X=")) else { bail!(key, "report for {key}: no coordinates") };
    let Some(x) = xyz(pl) else { bail!(key, "report for {key}: coordinates {pl:?}") };
    for k in 0..3 {
        ensure!(near(x[k], r.p[k], 0.1), key, "report for {key}: coordinates {pl:?}, expected {:?}", r.p);
    }
    for (l, w) in [("UTC", r.utc.total()), ("Delta AT", r.dat), ("TAI", r.tai.total()), ("TT", r.tt.total()), ("UT1", r.ut1.total()), ("ERA", r.era / DEG)] {
        ensure!(near(n!(line!(l)), w, 1e-6), key, "report for {key}: {l} {:?}, expected {w}", line!(l));
    }
    ensure!(line!("ERA").ends_with('°'), key, "report for {key}: ERA {:?}", line!("ERA"));
    let Some(e) = xyz(line!("Earth position (AU)")) else { bail!(key, "report for {key}: Earth position") };
    let Some(s) = xyz(line!("Sun position (m)")) else { bail!(key, "report for {key}: Sun position") };
    for k in 0..3 {
        ensure!(near(e[k], r.earth[k], 1e-13), key, "report for {key}: Earth position {e:?}, expected {:?}", r.earth);
        ensure!(near(s[k], r.sun_e[k], 1.0), key, "report for {key}: Sun position {s:?}, expected {:?}", r.sun_e);
    }
    let z = line!("Sun Zenith angle");
    let Some((a, b)) = z.split_once(" or elevation:") else { bail!(key, "report for {key}: angle line {z:?}") };
    ensure!(a.ends_with('°') && b.ends_with('°'), key, "report for {key}: angle line {z:?}");
    let d = r.sza / DEG;
    ensure!(near(n!(a), d, 0.01) && near(n!(b), 90.0 - d, 0.01), key, "report for {key}: angle line {z:?}, expected {d} and {}", 90.0 - d);
    ensure!((n!(a) + n!(b) - 90.0).abs() < 0.011, key, "report for {key}: angle and elevation do not add up: {z:?}");
    Ok(())
}

/// An offset against the shifted time of day.
fn equivalent(d: &Day, h: u8, de: f64, pl: (f64, f64, f64), c: &mut Ctx) -> Res {
    shifted(d, (h, 30, 15.0), de, pl, c)
}

fn shifted(d: &Day, (h, mi, sec): (u8, u8, f64), de: f64, pl: (f64, f64, f64), c: &mut Ctx) -> Res {
    let p = params(d.y, d.m, d.d, h, mi, sec, pl.0, pl.1, pl.2);
    let s = h as f64 * 3600.0 + mi as f64 * 60.0 + sec + de;
    // the shifted time may fall on another day
    let q0 = (s / 86400.0).floor();
    let d2 = Day::from_mjd(d.mjd + q0 as i64);
    let s = s - q0 * 86400.0;
    // TAI-UTC is taken once, for the date of the parameters
    let jump = (tai_utc(d.mjd, 0.5).unwrap_or(0.0) - tai_utc(d2.mjd, 0.5).unwrap_or(0.0)).abs();
    if jump > 0.05 {
        return Ok(());
    }
    let (h2, r2) = ((s / 3600.0).floor(), s % 3600.0);
    let q = params(d2.y, d2.m, d2.d, h2 as u8, (r2 / 60.0).floor() as u8, r2 % 60.0, pl.0, pl.1, pl.2);
    let a = SunAngleCalculator::new(&p).compute(de);
    let b = SunAngleCalculator::new(&q).compute(0.0);
    c.state();
    c.transitions += 2;
    let key = format_args!("{} {h}:{mi}:{sec} {de} {pl:?}", d.mjd);
    // the rate of TAI-UTC before 1972 is at most 0.0026 s a day
    let lag = jump + 0.003 * (1.0 + de.abs() / 86400.0);
    ensure!(vdiff(&a.sun_e, &b.sun_e) < 60.0 + 3.2e4 * lag && (a.sza - b.sza).abs() < 1e-7, key, "offset {de} from {:?} on {}: {:?} {}, at the shifted time {:?} {}", p.time, p.date, a.sun_e, a.sza, b.sun_e, b.sza);
    ensure!(((a.jd0 + a.jd1) - (b.jd0 + b.jd1)).abs() < 2e-9 && adiff(a.era, b.era).abs() < 4e-10 && vdiff(&a.earth, &b.earth) < 1e-10 + 2.1e-7 * lag && a.p == b.p, key, "offset {de} from {:?} on {}: instants differ", p.time, p.date);
    c.outcome(a.sza);
    c.note(|| format!("{} {} {de:+} s at {pl:?}", p.date, p.time));
    Ok(())
}

pub fn c26(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let nd = if thorough { 72989 } else { 3000 };
    v.push(family("offset_equivalence", format!("{nd} days over 1900-2099 x 22 offsets x 3 times: computing with an offset equals computing at the shifted time of day"), nd, move |i, c| {
        let d = Day::from_mjd(15079 + (i as i64 * 72989) / nd as i64);
        let (h, de) = (c.pick(&[2u8, 11, 19]), c.pick(&[1.0, 600.0, -600.0, 3661.5, -7200.0, 0.25, -0.001, 15000.0, -5400.0, 1e-6, 86400.0, -86400.0, 90061.0, -259200.5, 1e6, -1e6, 1234567.891, -1000000.5, 5000000.125, -9876543.21, 31557600.7, -0.4999]));
        let pl = PLACES[i % PLACES.len()];
        equivalent(&d, h, de, pl, c)?;
        c.traces += 1;
        Ok(())
    }));
    let os: Vec<f64> = dict::numbers(-1e7, 1e7, &[&|x| x, &|x| 60.0 * x, &|x| 3600.0 * x, &|x| 86400.0 * x]);
    let no = os.len();
    v.push(family("offset_literals", format!("{no} offsets around source literals (as seconds, minutes, hours, days) and powers of ten x 4 days x 3 times: the same"), no, move |i, c| {
        for (y, m, dd) in [(1961, 3, 4), (1973, 11, 5), (2007, 4, 5), (2040, 8, 29)] {
            for h in [2, 11, 19] {
                equivalent(&Day::from_ymd(y, m, dd), h, os[i], PLACES[i % PLACES.len()], c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let ns = if thorough { 400_000 } else { 20_000 };
    v.push(family("offset_sweep", format!("{ns} offsets spread evenly from -1e7 to 1e7 s and as many from -1e5 to 1e5, none of them whole, over 24 days: the same"), ns, move |i, c| {
        let d = Day::from_ymd(1903 + 8 * (i % 24) as i64, (i as i64 * 5) % 12 + 1, (i as i64 * 7) % 28 + 1);
        let x = (i as f64 + 0.37) / ns as f64 * 2.0 - 1.0;
        equivalent(&d, (i % 23) as u8, x * 1e7, PLACES[i % PLACES.len()], c)?;
        equivalent(&d, (i % 23) as u8, x * 1e5, PLACES[(i + 7) % PLACES.len()], c)
    }));
    v.push(family("whole_shifts", "from each minute of the day to the surrounding midnights and to 3 whole hours on the same and adjoining days, from each hour to each hour of the day before to the day after, by offsets that land there exactly; 48 days: the same", 1440, |i, c| {
        let (h, mi) = ((i / 60) as u8, (i % 60) as u8);
        let from = 60 * i as i64;
        let mut to: Vec<i64> = vec![-24, 0, 24, 48, 12, -1, 25];
        if mi == 0 {
            to.extend(-24..=48);
        }
        for (k, t) in to.iter().enumerate() {
            let d = Day::from_ymd(1903 + 4 * ((i + k) % 48) as i64, ((i + 5 * k) % 12) as i64 + 1, [1, 28, 15, 2][(i + k) % 4]);
            shifted(&d, (h, mi, 0.0), (3600 * t - from) as f64, PLACES[(i + k) % PLACES.len()], c)?;
            if k < 4 {
                // from and to a fraction of a second
                shifted(&d, (h, mi, 0.25), (3600 * t - from) as f64 - 0.25, PLACES[(i + k) % PLACES.len()], c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let n = if thorough { 72989 } else { 4000 };
    v.push(family("report", format!("{n} days over 1900-2099 x 3 times x 12 offsets (to 1e6 s, either sign), 18 places in turn: every figure of the printed report parsed back and compared with the result and parameters"), n, move |i, c| {
        let d = Day::from_mjd(15079 + (i as i64 * 72989) / n as i64);
        let pl = PLACES[(i * 7) % PLACES.len()];
        let t = c.pick(&[(0u8, 0u8, 0.0), (13, 7, 59.9999999), (23, 59, 30.123456)]);
        let de = c.pick(&[0.0, -600.0, 1234.567891, 86400.0, -86400.0, 90000.5, -123456.75, 1e6, -1e6, 4e-7, -6e-7, 31.5]);
        let p = params(d.y, d.m, d.d, t.0, t.1, t.2, pl.0, pl.1, pl.2);
        let r = SunAngleCalculator::new(&p).compute(de);
        let b = SunAngleResultBundle { parameters: &p, result: &r };
        let s = b.to_string();
        c.state();
        c.step();
        let key = format_args!("{} {} {de} {pl:?}", p.date, p.time);
        report_conforms(&s, &p, &r, &key)?;
        c.note(|| s.clone());
        c.traces += 1;
        Ok(())
    }));
    let ls = dict::numbers(-1e6, 1e6, &[&|x| x, &|x| x / DEG]);
    let nl = ls.len();
    v.push(family("report_literals", format!("reports for {nl} values around source literals used in turn as latitude, longitude, height, offset and second, in 6 years"), nl, move |i, c| {
        let x = ls[i];
        let y = [1903, 1959, 1966, 1972, 2007, 2081][i % 6];
        let mut one = |t: (u8, u8, f64), lat: f64, lon: f64, h: f64, de: f64| -> Res {
            let p = params(y, 1 + i as i64 % 12, 1 + i as i64 % 28, t.0, t.1, t.2, lat, lon, h);
            let r = SunAngleCalculator::new(&p).compute(de);
            c.state();
            c.step();
            report_conforms(&SunAngleResultBundle { parameters: &p, result: &r }.to_string(), &p, &r, &format_args!("{p:?} {de:?}"))
        };
        one((1, 2, 3.0), 12.0, 34.0, 56.0, x)?;
        one((20, 2, 33.0), -12.0, 234.0, x, 0.0)?;
        if x.abs() <= 720.0 {
            one((1, 2, 3.0), 12.0, x, 56.0, 0.0)?;
        }
        if x.abs() <= 90.0 {
            one((1, 2, 3.0), x, 12.0, 56.0, 0.0)?;
        }
        if (0.0..60.0).contains(&x) {
            one((11, 59, x), 3.0, 12.0, 56.0, 0.0)?;
        }
        Ok(())
    }));
    v.push(family("report_sky", "reports every 4 minutes of 12 days at 18 places: zenith angle and elevation through the whole sky, day and night", 360 * 12, |i, c| {
        let d = Day::from_mjd(51544 + (i / 360) as i64 * 761);
        let m = (i % 360) * 4;
        for pl in PLACES {
            let p = params(d.y, d.m, d.d, (m / 60) as u8, (m % 60) as u8, 0.0, pl.0, pl.1, pl.2);
            let r = SunAngleCalculator::new(&p).compute(0.0);
            c.state();
            c.step();
            report_conforms(&SunAngleResultBundle { parameters: &p, result: &r }.to_string(), &p, &r, &format_args!("{p:?}"))?;
            c.outcome(r.sza);
        }
        c.traces += 1;
        Ok(())
    }));
    let nz = if thorough { 72989 } else { 3000 };
    v.push(family("report_extremes", format!("reports on {nz} days over 1900-2099 for observers close to the point below the Sun, its antipode and the terminator"), nz, move |i, c| {
        let d = Day::from_mjd(15079 + (i as i64 * 72989) / nz as i64);
        let s = ((i as f64 * 0.618033988749895).fract() * 86400.0).floor();
        let mut p = params(d.y, d.m, d.d, (s / 3600.0).floor() as u8, ((s % 3600.0) / 60.0).floor() as u8, s % 60.0, 0.0, 0.0, 0.0);
        for pl in under_the_sun(&p.clone(), i) {
            p.position = Geodetic360 { lat: pl.0, lon: pl.1, height: pl.2 };
            let r = SunAngleCalculator::new(&p).compute(0.0);
            c.state();
            c.step();
            report_conforms(&SunAngleResultBundle { parameters: &p, result: &r }.to_string(), &p, &r, &format_args!("{p:?}"))?;
            c.outcome(r.sza);
        }
        c.traces += 1;
        Ok(())
    }));
    // synthetic results: every figure of the report is the field it names
    v.push(family("report_fields", "reports of 18 hand-made results, each with one field set apart: every figure is the field it is labelled with", 18, |i, c| {
        use tofas::time::{TAI, TT, UT1, UTC};
        let p = params(1987, 11, 3, 4, 5, 6.789, -12.345678, 98.765432, 543.21);
        let mut f = [2400000.5, 47102.17, 77.25, 1111.5, -2222.25, 3333.125, 1.5, 0.3, -0.4, 0.5, 7e10, -8e10, 9e10, 0.7, 23.5, 2450001.25, 2450002.5, 2450003.75];
        f[i] *= -1.75;
        let mut r = SunAngleCalculator::new(&p).compute(0.0);
        r.jd0 = f[0];
        r.jd1 = f[1];
        r.delta_s = f[2];
        r.p = [f[3], f[4], f[5]];
        r.utc = UTC((2400000.5, f[15] - 2400000.0));
        r.dat = f[14];
        r.tai = TAI((1.25, f[16]));
        r.tt = TT((2400000.5, f[17] - 2400000.0));
        r.ut1 = UT1((f[0], 2.5));
        r.era = f[6];
        r.earth = [f[7], f[8], f[9]];
        r.sun_e = [f[10], f[11], f[12]];
        r.sza = f[13];
        let s = SunAngleResultBundle { parameters: &p, result: &r }.to_string();
        c.state();
        c.step();
        let key = format_args!("synthetic {i}");
        let jl: Vec<f64> = report_line(&s, "Julian date").unwrap_or("").split_once('=').map(|x| num(x.0)).into_iter().flatten().collect();
        ensure!(jl.len() == 1 && (jl[0] - (f[0] + f[1])).abs() < 1e-6, key, "report: {s}");
        // negative Julian dates print as "a + -b"; only the first figure is
        // checked here for those
        if f[0] > 0.0 && f[1] > 0.0 {
            report_conforms(&s, &p, &r, &key)?;
        }
        Ok(())
    }));
    v
}
