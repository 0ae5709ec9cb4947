//! C27: results depend on the arguments only, not on what was called before,
//! on which thread, or on which other objects exist.

use crate::engine::*;
use crate::{bail, ensure};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::OnceLock;
use tofas::calendar::{GregorianDate, GregorianDateHMS, HMS};
use std::f64::consts::PI;
use tofas::common::{anp, Mat3, Matrix, Vec3, Vector, TWO_PI};
use tofas::delta_at::DeltaAt;
use tofas::earth::{polar_motion_matrix, rotation_angle, EarthPosVel};
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, Geodetic, Geodetic360, WGS84};
use tofas::time::{TAI, TDB, TT, UT1, UTC};
use tofas::{frames, fundargs, locator};
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResultBundle};

pub struct Token {
    pub group: &'static str,
    pub name: String,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
}

/// Two-part dates chosen to collide in every way a memo could be keyed:
/// same first part, same second part, swapped, same sum, nearly equal, one
/// part zero, opposite sign, far away.
const P: [(f64, f64); 20] = [
    (2451545.0, 0.25),
    (2451545.0, 0.75),
    (2451545.0, 0.2500001),
    (2451545.0, 0.250000000001),
    (2451546.0, 0.25),
    (0.25, 2451545.0),
    (2451545.25, 0.0),
    (2451545.0, -0.25),
    (2400000.5, 51544.75),
    (2400000.5, 54195.5),
    (2460000.5, 0.25),
    (2451545.0, 0.0),
    (2451545.0, 9000.25),
    (2415030.5, 0.25),
    (2451545.125, 0.125),
    (2451544.75, 0.5),
    (2451545.0, 0.250001),
    (2351545.0, 0.25),
    // the same bits, combined by exclusive or and by addition, as the first
    (-2451545.0, -0.25),
    (2451545.0000000005, 0.24999999999999997),
];

pub fn tokens() -> Vec<Token> {
    let mut v: Vec<Token> = vec![];
    macro_rules! t {
        ($g:expr, $n:expr, $b:expr) => {{
            v.push(Token { group: $g, name: format!("{} {}", $g, $n), run: Box::new(move || format!("{:?}", $b)) });
        }};
    }
    for p in P {
        t!("epv", format!("{p:?}"), EarthPosVel::from(TDB(p)));
        t!("era", format!("{p:?}"), rotation_angle(UT1(p)));
        t!("nutation", format!("{p:?}"), frames::nutation(TT(p)));
        t!("precession_rate", format!("{p:?}"), frames::precession_rate(TT(p)));
        t!("obliquity", format!("{p:?}"), frames::mean_obliquity(TT(p)));
        t!("bias_precession", format!("{p:?}"), frames::bias_and_precession(TT(p)));
        t!("pn", format!("{p:?}"), frames::precession_nutation(TT(p)));
        t!("pn_nut", format!("{p:?}"), frames::PrecessionNutation::from_tt_with_nutation(TT(p), 1e-5, p.1 * 1e-6));
        t!("c2i", format!("{p:?}"), frames::celestial_to_intermediate(TT(p)));
        t!("cio", format!("{p:?}"), locator::cio(TT(p), 1e-4, 2e-5));
    }
    for (x, y) in [(1e-4, 3e-5), (2e-5, 1e-4), (2e-5, 2e-5), (0.0, 0.0), (-1e-4, 2e-5)] {
        t!("cio", format!("xy {x} {y}"), locator::cio(TT(P[0]), x, y));
        t!("c2i_xys", format!("{x} {y}"), frames::celestial_to_intermediate_from_xys(x, y, 1e-8));
        t!("c2i_xys", format!("{x} {y} 0"), frames::celestial_to_intermediate_from_xys(x, y, 0.0));
        t!("c2i_xy", format!("{x} {y}"), frames::celestial_to_intermediate_with_bpn_and_xy(TT(P[0]), x, y));
        t!("polar_motion", format!("{x} {y} 0"), polar_motion_matrix(x, y, 0.0));
        t!("polar_motion", format!("{x} {y} 1"), polar_motion_matrix(x, y, 1e-6));
        t!("nutation_matrix", format!("{x} {y}"), frames::nutation_matrix(0.4, x, y));
    }
    for (i, j, x, y) in [(0, 0, 0.0, 0.0), (0, 1, 0.0, 0.0), (1, 0, 0.0, 0.0), (0, 0, 1e-6, 0.0), (0, 0, 0.0, 1e-6), (9, 9, 1e-6, 2e-6), (9, 9, 2e-6, 1e-6), (9, 10, 1e-6, 2e-6), (2, 0, 0.0, 0.0), (0, 2, 0.0, 0.0)] {
        t!("c2t", format!("{i} {j} {x} {y}"), frames::celestial_to_terrestrial(TT(P[i]), UT1(P[j]), x, y));
    }
    for tt in [0.0, 0.1, 0.1000001, -0.1, 1.0, 0.25, 1.5] {
        t!("fundargs", tt, [fundargs::l03(tt), fundargs::lp03(tt), fundargs::f03(tt), fundargs::d03(tt), fundargs::om03(tt), fundargs::ve03(tt), fundargs::e03(tt), fundargs::pa03(tt)]);
    }
    for (y, m, d) in [(2000, 1, 1), (2000, 2, 29), (2016, 12, 31), (2017, 1, 1), (1968, 2, 1), (1965, 2, 1), (2000, 12, 1), (2100, 2, 29), (2100, 2, 28), (1972, 6, 30), (1959, 1, 1), (-4800, 1, 1), (2000, 13, 1)] {
        t!("date", format!("{y} {m} {d}"), GregorianDate::new(y, m, d));
        let ok = GregorianDate { year: y, month: m.clamp(1, 12), day: d.min(28) };
        t!("to_julian", format!("{y} {m} {d}"), (ok.to_julian(), ok.to_string()));
        for f in [0.0, 0.5, 1.0] {
            t!("delta_at", format!("{y} {m} {d} {f}"), ok.delta_at(f));
        }
    }
    // dates that share a year, a month, a day, a row of the table or the start
    // of the next one; fractions of one day
    for (y, m, d) in [
        (1960, 1, 1), (1961, 1, 1), (1961, 7, 31), (1961, 8, 1), (1963, 11, 1), (1964, 1, 1), (1964, 4, 1), (1965, 1, 1), (1965, 3, 1), (1965, 7, 1), (1965, 9, 1), (1966, 1, 1),
        (1968, 1, 31), (1971, 12, 28), (1972, 1, 1), (1972, 7, 1), (1973, 1, 1), (1981, 1, 1), (1981, 7, 1), (1981, 12, 1), (1982, 7, 1), (1991, 1, 1), (1997, 6, 28), (1997, 7, 1), (2012, 1, 1),
        (2012, 7, 1), (2015, 1, 1), (2015, 7, 1), (2016, 1, 28), (2017, 1, 28), (2017, 2, 1), (2023, 6, 1), (2099, 7, 1),
    ] {
        let g = GregorianDate { year: y, month: m, day: d };
        t!("delta_at", format!("{y} {m} {d} .25"), g.delta_at(0.25));
        t!("to_julian", format!("{y} {m} {d}"), (g.to_julian(), g.to_string()));
        t!("date", format!("{y} {m} {d}"), GregorianDate::new(y, m, d));
    }
    for (m, d) in [(2, 30), (2, 31), (4, 30), (4, 31), (12, 31), (12, 32), (1, 0), (0, 1)] {
        t!("date", format!("2000 {m} {d} edge"), GregorianDate::new(2000, m, d));
        t!("date", format!("2001 {m} {d} edge"), GregorianDate::new(2001, m, d));
    }
    for f in [0.1, 0.100000001, 0.9, 1e-9, -0.25, 1.25] {
        t!("delta_at", format!("1968 2 1 {f}"), GregorianDate { year: 1968, month: 2, day: 1 }.delta_at(f));
    }
    // one day, other times; one time, other days; one year, other months
    for (a, b) in [(2400000.5, 51544.1), (2400000.5, 51544.9999999), (2400000.5, 51545.5), (2400000.5, 51576.5), (2400000.5, 51909.5), (2400000.5, 15078.5), (2451544.5, 0.5), (2451544.5, 1.0), (2451545.0, 0.0)] {
        t!("from_julian", format!("near {a} {b}"), GregorianDate::from_julian(a, b));
        t!("stamp", format!("near {a} {b}"), GregorianDateHMS::from_julian(a, b));
    }
    for k in 4..14 {
        let p = sun_params(k);
        t!("sun", format!("{k} only"), sun_text(&p, &SunAngleCalculator::new(&p), 0.0));
    }
    for p in [[6.4e6, 1.0e5, 2.000001e5], [6.4e6, 1.000001e5, 2.0e5], [6.400001e6, 1.0e5, 2.0e5], [-6.4e6, 1.0e5, 2.0e5], [6.4e6, -1.0e5, 2.0e5]] {
        t!("to_geodetic", format!("near {p:?}"), EllipsoidConverter::new(&WGS84).ok().unwrap().geocentric_to_geodetic(&p));
    }
    for (e, x, y) in [(0.4, 1e-4, 3e-5), (0.4001, 1e-4, 3e-5), (0.4, 1.0001e-4, 3e-5), (0.4, 1e-4, 3.0001e-5), (-0.4, 1e-4, 3e-5), (0.4, -1e-4, 3e-5), (0.4, 1e-4, -3e-5)] {
        t!("nutation_matrix", format!("one of {e} {x} {y}"), frames::nutation_matrix(e, x, y));
        t!("polar_motion", format!("one of {e} {x} {y}"), polar_motion_matrix(x, y, e));
        t!("c2i_xys", format!("one of {e} {x} {y}"), frames::celestial_to_intermediate_from_xys(x, y, e * 1e-6));
        t!("pn_nut", format!("one of {e} {x} {y}"), frames::PrecessionNutation::from_tt_with_nutation(TT((2451545.0, e)), x, y));
        t!("cio", format!("one of {e} {x} {y}"), locator::cio(TT((2451545.0, e)), x, y));
        t!("c2t", format!("one of {e} {x} {y}"), frames::celestial_to_terrestrial(TT((2451545.0, e)), UT1((2451545.0, 0.25)), x, y));
    }
    for tt in [0.1 + 1e-9, 0.1 + 1e-13, 0.2, 0.11, 10.0, -10.0] {
        t!("fundargs", format!("{tt:?}"), [fundargs::l03(tt), fundargs::lp03(tt), fundargs::f03(tt), fundargs::d03(tt), fundargs::om03(tt), fundargs::ve03(tt), fundargs::e03(tt), fundargs::pa03(tt)]);
    }
    // years apart by the periods a table or an index could be folded by
    for k in [1.0, 256.0, 365.25, 512.0, 1024.0, 1461.0, 4096.0, 36525.0, 65536.0, 146097.0] {
        let p = (2451545.0, 0.25 + k);
        t!("epv", format!("period {k}"), EarthPosVel::from(TDB(p)));
        t!("era", format!("period {k}"), rotation_angle(UT1(p)));
        t!("nutation", format!("period {k}"), frames::nutation(TT(p)));
        t!("pn", format!("period {k}"), frames::precession_nutation(TT(p)));
        t!("c2i", format!("period {k}"), frames::celestial_to_intermediate(TT(p)));
        t!("from_julian", format!("period {k}"), GregorianDate::from_julian(p.0, p.1));
        t!("stamp", format!("period {k}"), GregorianDateHMS::from_julian(p.0, p.1));
    }
    for (a, b) in [(2400000.5, 51544.0), (2451544.5, 0.0), (2400000.5, 51544.5), (51544.5, 2400000.5), (2400000.5, 60000.25), (2400000.5, 60000.99999999), (1e10, 0.0), (-1e6, 0.0)] {
        t!("from_julian", format!("{a} {b}"), GregorianDate::from_julian(a, b));
        t!("stamp", format!("{a} {b}"), GregorianDateHMS::from_julian(a, b));
    }
    for f in [0.0, 0.25, 0.2500001, 0.999999999, 1.0, 1.5, -0.1] {
        t!("hms", f, HMS::from_fraction_of_day(f).map(|h| (h, h.to_string(), h.to_fraction_of_day())));
    }
    for (p, o) in [(P[0], 32.0), (P[0], 33.0), (P[1], 32.0), (P[5], 32.0), (P[5], 0.0), (P[8], -0.07), (P[9], 65.2)] {
        t!("scales", format!("{p:?} {o}"), (TT::from_ut1(UT1(p), o).0, UT1::from_tt(TT(p), o).0, TDB::from_tt(TT(p), o).0, TAI::from_utc_delta_at(UTC(p), o).0, TT::from(TAI(p)).0));
    }
    for (ax, th) in [(0, 0.3), (1, 0.3), (2, 0.3), (0, -0.3), (0, 0.0), (2, 0.3000001)] {
        t!("rotation", format!("{ax} {th}"), Mat3::rotation(ax, th));
    }
    for th in [0.3, -0.3, 7.0, -1e-20, TWO_PI] {
        t!("anp", th, anp(th));
    }
    let els = [WGS84, Ellipsoid { a: 6378137.0, f: 0.0 }, Ellipsoid { a: 6378136.0, f: WGS84.f }, Ellipsoid { a: 3396190.0, f: 0.00589 }, Ellipsoid { a: 3396190.0, f: 0.0 }, Ellipsoid { a: 3396190.0, f: WGS84.f }];
    for e in [(0.0, 0.0), (6378137.0, 1.0), (6378137.0, -0.1), (-1.0, WGS84.f), (6378137.0, f64::NAN)] {
        t!("converter_new", format!("{e:?}"), EllipsoidConverter::new(&Ellipsoid { a: e.0, f: e.1 }).is_err());
    }
    for (k, el) in els.into_iter().enumerate() {
        t!("converter_new", k, EllipsoidConverter::new(&el).map(|c| format!("{:?}", c.ellipsoid())).ok());
    }
    for (lat, lon, h) in [(10.0, 20.0, 30.0), (20.0, 10.0, 30.0), (10.0, 20.0, 31.0), (-10.0, 20.0, 30.0), (10.0, 380.0, 30.0), (90.0, 0.0, 0.0)] {
        t!("degrees", format!("{lat} {lon} {h}"), (Geodetic::from(Geodetic360 { lat, lon, height: h }), Geodetic360 { lat, lon, height: h }.to_string()));
    }
    let vs: [Vec3; 6] = [[1.0, 2.0, 3.0], [2.0, 1.0, 3.0], [1.0, 2.0, -3.0], [1e-5, 2e-5, 3e-5], [0.0, 0.0, 1.0], [1.0, 2.0, 3.0000001]];
    for (i, x) in vs.into_iter().enumerate() {
        for (j, y) in vs.into_iter().enumerate() {
            t!("vector", format!("{i} {j}"), (x.angle(y), x.dot(y), x.add(y), x.sub(y), x.scale(y[2]), x.norm(), x.normalize(), x.neg()));
        }
        let m = Mat3::rotation(i % 3, 0.1 * i as f64);
        t!("matrix", i, (m.apply(x), m.transpose(), m.compose(&Mat3::rotation(1, 0.2)), m.compose(&m)));
    }
    for (k, el) in els.into_iter().enumerate() {
        for (lat, lon, h) in GEODETIC {
            t!("to_geocentric", format!("{k} {lat} {lon} {h}"), EllipsoidConverter::new(&el).ok().unwrap().geodetic_to_geocentric(&Geodetic { elong: lon, phi: lat, height: h }).ok());
        }
        for p in POINTS {
            t!("to_geodetic", format!("{k} {p:?}"), EllipsoidConverter::new(&el).ok().unwrap().geocentric_to_geodetic(&p));
        }
    }
    for (lat, lon) in [(0.5, 1.0), (0.5, 4.0), (1.5, -4.0), (1.0, 0.5)] {
        t!("geodetic_text", format!("{lat} {lon}"), (Geodetic { elong: lon, phi: lat, height: 1.0 }.to_string(), Geodetic360::from(Geodetic { elong: lon, phi: lat, height: 1.0 }), Geodetic { elong: lon, phi: lat, height: 1.0 }.zenith()));
    }
    for k in 0..4 {
        for d in OFFSETS {
            let p = sun_params(k);
            t!("sun", format!("{k} {d}"), sun_text(&p, &SunAngleCalculator::new(&p), d));
        }
    }
    v
}

/// Positions the converters are given.
const POINTS: [[f64; 3]; 11] =
    [[6.4e6, 1.0e5, 2.0e5], [1.0e5, 6.4e6, 2.0e5], [6.4e6, 1.0e5, -2.0e5], [4e6, 3e6, 4e6], [0.0, 0.0, 6.4e6], [0.0, 0.0, -6.4e6], [6.4e6, 0.0, 0.0], [4e6, 3e6, -4e6], [3e6, 4e6, 4e6], [4e6, 3e6, 0.0], [-6.4e6, 0.0, 1e6]];
const GEODETIC: [(f64, f64, f64); 5] = [(0.5, 1.0, 100.0), (0.5, 1.0, 200.0), (1.0, 0.5, 100.0), (-0.5, 1.0, 100.0), (PI / 2.0, 0.0, 0.0)];

/// Offsets the calculators are asked for.
const OFFSETS: [f64; 6] = [0.0, 60.0, 3600.0, -600.0, 86400.0, 1e-6];

/// Parameter sets: a base, then each differing from it in one component.
fn sun_params(k: usize) -> SunAngleParameters {
    let mut p = super::sun::params(2007, 4, 5, 6, 30, 0.0, 10.0, 20.0, 100.0);
    match k {
        1 => p.position.lon = 21.0,
        2 => p.date.year = 2017,
        3 => p.time.hour = 7,
        4 => p.position.lat = 11.0,
        5 => p.position.height = 101.0,
        6 => p.date.month = 5,
        7 => p.date.day = 6,
        8 => p.time.minute = 31,
        9 => p.time.second = 0.5,
        10 => p.position.lat = -10.0,
        11 => p.position.lon = -20.0,
        12 => p.position.lon = 380.0,
        13 => p.time.second = 1e-6,
        _ => {}
    }
    p
}

fn sun_text(p: &SunAngleParameters, c: &SunAngleCalculator, d: f64) -> String {
    let r = c.compute(d);
    format!("{r:?} {}", SunAngleResultBundle { parameters: p, result: &r })
}

pub fn call(t: &Token) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.run)())) {
        Ok(s) => s,
        Err(_) => "panic".into(),
    }
}

/// How far the clock of this process is set off, in seconds.
static CLOCK_OFF: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

/// In place of the C library's: the standard library asks this one for the time.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    if r == 0 && id == libc::CLOCK_REALTIME {
        (*t).tv_sec += CLOCK_OFF.load(std::sync::atomic::Ordering::Relaxed);
    }
    r
}

/// Hours by which the clock is set off: every hour of a day, every day of a
/// week, every month of a year, and years either way.
const CLOCKS: [i64; 50] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 48, 72, 96, 120, 144, -24, 24 * 30, 24 * 61, 24 * 91, 24 * 122, 24 * 152, 24 * 182, 24 * 213, 24 * 243, 24 * 274,
    24 * 304, 24 * 335, 24 * 366, 24 * 731, 24 * 1096, 24 * 3653, 24 * 36525, 24 * 365250, -24 * 366, -24 * 3653, -24 * 20000,
];

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// `mc hist one K`: the value of one token in a fresh process.
/// `mc hist each`: every token once, in order; baselines on standard input.
/// `mc hist first I`: token I first, then every other after it, each pair in
/// both orders; baselines on standard input; prints the first mismatch.
pub fn helper(a: &[String]) -> i32 {
    let ts = tokens();
    match (a.first().map(|s| &s[..]), a.get(1).and_then(|s| s.parse::<usize>().ok())) {
        (Some("one"), Some(k)) => {
            println!("{}", hash(&call(&ts[k])));
            0
        }
        (Some("each"), _) => {
            CLOCK_OFF.store(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(0), std::sync::atomic::Ordering::Relaxed);
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            for (k, b) in s.lines().enumerate() {
                let r = call(&ts[k]);
                if hash(&r).to_string() != b {
                    println!("MISMATCH [{}] gives {}", ts[k].name, r.chars().take(400).collect::<String>());
                    return 0;
                }
            }
            println!("OK {}", ts.len());
            0
        }
        (Some("first"), Some(i)) => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let base: Vec<u64> = s.lines().map(|l| l.parse().unwrap()).collect();
            let mut n = 0u64;
            for j in 0..ts.len() {
                for k in [i, j, i] {
                    n += 1;
                    let r = call(&ts[k]);
                    if hash(&r) != base[k] {
                        println!("MISMATCH {k} after {i} and {j}: [{}] after [{}] and [{}] gives {}", ts[k].name, ts[i].name, ts[j].name, r.chars().take(400).collect::<String>());
                        return 0;
                    }
                }
            }
            println!("OK {n}");
            0
        }
        (Some("race"), Some(i)) => {
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
            let base: Vec<u64> = s.lines().map(|l| l.parse().unwrap()).collect();
            let cap = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(3000);
            crate::race::helper(ts, i, &base, cap)
        }
        _ => 2,
    }
}

/// Run a helper on token `i` with the baselines; its single line of output.
fn with_baselines(mode: &str, i: usize, arg: i64) -> String {
    with_baselines_in(mode, i, arg, |_| {})
}

fn with_baselines_in(mode: &str, i: usize, arg: i64, around: impl Fn(&mut Command)) -> String {
    let base: String = baselines().iter().map(|x| format!("{x}\n")).collect();
    let mut cmd = Command::new(exe());
    cmd.args(["hist", mode, &i.to_string(), &arg.to_string()]);
    around(&mut cmd);
    let mut ch = cmd
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a process");
    ch.stdin.take().unwrap().write_all(base.as_bytes()).expect("cannot write");
    let o = ch.wait_with_output().expect("no output");
    let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if s.is_empty() {
        return format!("no answer (exit {:?})", o.status.code());
    }
    s
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().expect("no path to this program")
}

fn baselines() -> &'static Vec<u64> {
    static B: OnceLock<Vec<u64>> = OnceLock::new();
    B.get_or_init(|| {
        let n = tokens().len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let out = std::sync::Mutex::new(vec![0u64; n]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if k >= n {
                        break;
                    }
                    let o = Command::new(exe()).args(["hist", "one", &k.to_string()]).stderr(Stdio::null()).output().expect("cannot start a process");
                    let h = String::from_utf8_lossy(&o.stdout).trim().parse().expect("no baseline");
                    out.lock().unwrap()[k] = h;
                    tick();
                });
            }
        });
        out.into_inner().unwrap()
    })
}

fn check(ts: &[Token], k: usize, what: &dyn Fn() -> String, c: &mut Ctx) -> Res {
    let r = call(&ts[k]);
    c.step();
    ensure!(hash(&r) == baselines()[k], format!("{k}"), "[{}] {} gives {}, unlike in a fresh process", ts[k].name, what(), r.chars().take(400).collect::<String>());
    Ok(())
}

fn groups(ts: &[Token]) -> Vec<Vec<usize>> {
    let mut g: Vec<(&str, Vec<usize>)> = vec![];
    for (i, t) in ts.iter().enumerate() {
        match g.iter_mut().find(|x| x.0 == t.group) {
            Some(x) => x.1.push(i),
            None => g.push((t.group, vec![i])),
        }
    }
    g.into_iter().map(|x| x.1).collect()
}

fn named(s: String) -> u64 {
    static T: OnceLock<Vec<Token>> = OnceLock::new();
    let k = T.get_or_init(tokens).iter().position(|t| t.name == s).unwrap_or_else(|| panic!("no call [{s}]"));
    baselines()[k]
}

/// By ellipsoid: the values of POINTS, then of GEODETIC, from fresh processes.
fn converter_baselines() -> &'static Vec<Vec<u64>> {
    static B: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    B.get_or_init(|| {
        (0..4)
            .map(|k| {
                let p = POINTS.iter().map(|p| named(format!("to_geodetic {k} {p:?}")));
                p.chain(GEODETIC.iter().map(|(a, b, h)| named(format!("to_geocentric {k} {a} {b} {h}")))).collect()
            })
            .collect()
    })
}

/// By parameter set: the values at OFFSETS from fresh processes.
fn calculator_baselines() -> &'static Vec<Vec<u64>> {
    static B: OnceLock<Vec<Vec<u64>>> = OnceLock::new();
    B.get_or_init(|| (0..4).map(|k| OFFSETS.iter().map(|d| named(format!("sun {k} {d}"))).collect()).collect())
}

pub fn c27(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = tokens().len();
    v.push(family("fresh_process_first_call", format!("{n} calls over every public function, arguments chosen to collide; for each a new process makes it first, then every other call after it and itself again: each result equals the one of a process that made no other call"), n, |i, c| {
        let s = with_baselines("first", i, 0);
        c.state();
        match s.strip_prefix("OK ").and_then(|x| x.parse::<u64>().ok()) {
            Some(k) => c.transitions += k,
            None => bail!(format!("{i}"), "{s}"),
        }
        c.traces += 1;
        c.outcome(baselines()[i] as f64);
        Ok(())
    }));
    // what surrounds the process
    let names = crate::dict::names();
    let vals = ["1", "0.5", "", "-1e9", "no"];
    let nn = 6 + 2 * names.len() * vals.len();
    let ne = nn + CLOCKS.len();
    v.push(family("surroundings", format!("every call in a process with other surroundings: no environment, foreign language and time zone, verbose, home and directory elsewhere, one processor, extra arguments, the clock set off by {} amounts, and each of {} names in capitals that the sources quote set to {} values; results as before", CLOCKS.len(), names.len(), vals.len()), ne, move |i, c| {
        let clock = if i >= nn { CLOCKS[i - nn] * 3600 } else { 0 };
        let s = with_baselines_in("each", 0, clock, |cmd| match i {
            0 => {
                cmd.env_clear();
            }
            1 => {
                cmd.env("TZ", "Asia/Kathmandu").env("LANG", "tr_TR.UTF-8").env("LC_ALL", "de_DE.UTF-8").env("LC_NUMERIC", "fr_FR.UTF-8");
            }
            2 => {
                cmd.env("RUST_BACKTRACE", "full").env("RUST_LOG", "trace").env("DEBUG", "1").env("VERBOSE", "1").env("NO_COLOR", "1").env("COLUMNS", "10").env("CI", "true");
            }
            3 => {
                cmd.env("HOME", "/nonexistent").env("USER", "nobody").env("TMPDIR", "/nonexistent").env("PATH", "").current_dir("/");
            }
            4 => {
                use std::os::unix::process::CommandExt;
                unsafe {
                    cmd.pre_exec(|| {
                        let mut s: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(libc::sched_getcpu().max(0) as usize, &mut s);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&s), &s);
                        Ok(())
                    });
                }
            }
            5 => {
                cmd.args(["--verbose", "2", "--fast", "--help"]);
            }
            _ if i >= nn => {}
            _ => {
                let k = (i - 6) / 2;
                let (n, x) = (&names[k / vals.len()], vals[k % vals.len()]);
                if i % 2 == 1 {
                    cmd.env_clear();
                }
                cmd.env(n, x);
            }
        });
        c.state();
        match s.strip_prefix("OK ").and_then(|x| x.parse::<u64>().ok()) {
            Some(k) => c.transitions += k,
            None => bail!(format!("{i}"), "with surroundings {i}: {s}, unlike before"),
        }
        c.traces += 1;
        c.outcome(i as f64);
        Ok(())
    }));
    let mut f = family("histories", "in one process: every ordered triple of calls of the same function, and every ordered pair of all calls", n, move |i, c| {
        let ts = tokens();
        let gs = groups(&ts);
        let g = gs.iter().find(|g| g.contains(&i)).unwrap();
        for &j in g {
            for &k in g {
                for t in [i, j, k] {
                    check(&ts, t, &|| format!("in the history [{}] [{}] [{}]", ts[i].name, ts[j].name, ts[k].name), c)?;
                }
                c.state();
            }
        }
        for j in 0..ts.len() {
            for t in [i, j] {
                check(&ts, t, &|| format!("in the history [{}] [{}]", ts[i].name, ts[j].name), c)?;
            }
            c.state();
        }
        c.traces += 1;
        c.note(|| ts[i].name.clone());
        Ok(())
    });
    f.serial = true;
    v.push(f);
    let cap = if thorough { 100_000 } else { 1500 };
    v.push(family("inside_calls", format!("interleavings inside calls: every access of each of {n} calls to a writable static of the library is a scheduling point; each call with itself, with 5 more of its kind and one of every other kind that shares a static, on two threads, from 3 earlier states, under every schedule with one, then two preemptions among the first 64 accesses (at most {cap} schedules for each call, a limit that is reported when reached), each in a process of its own, and both calls again afterwards"), n, move |i, c| {
        let s = with_baselines("race", i, cap);
        c.state();
        c.step();
        let k: Vec<u64> = s.strip_prefix("OK ").map(|x| x.split(' ').filter_map(|y| y.parse().ok()).collect()).unwrap_or_default();
        ensure!(k.len() == 4, format!("{i}"), "{s}");
        c.states += k[1];
        c.transitions += k[2];
        c.traces += k[2];
        c.note(|| format!("[{}]: the library has {} writable statics; {} pairs sharing one, {} schedules{}", tokens()[i].name, k[0], k[1], k[2], if k[3] == 1 { " (limit reached)" } else { "" }));
        tick();
        Ok(())
    }));
    let ng = groups(&tokens()).len();
    let depth = if thorough { 4 } else { 3 };
    let mut f = family("two_threads", format!("two threads taking turns: for each of {ng} groups of calls, every history of {depth} steps over (thread, one of up to 5 calls)"), ng, move |i, c| {
        let ts: &'static Vec<Token> = {
            static T: OnceLock<Vec<Token>> = OnceLock::new();
            T.get_or_init(tokens)
        };
        // worker threads, new ones for each history
        let g: Vec<usize> = groups(ts)[i].iter().copied().take(5).collect();
        let mut hist = vec![];
        for _ in 0..depth {
            let k = c.choose(2 * g.len());
            hist.push((k % 2, g[k / 2]));
        }
        let (otx, orx) = mpsc::channel::<u64>();
        let mut tx: Vec<mpsc::Sender<usize>> = vec![];
        let mut hs = vec![];
        for _ in 0..2 {
            let (s, r) = mpsc::channel::<usize>();
            let o = otx.clone();
            hs.push(std::thread::spawn(move || {
                for k in r {
                    let _ = o.send(hash(&call(&ts[k])));
                }
            }));
            tx.push(s);
        }
        for &(w, k) in &hist {
            tx[w].send(k).unwrap();
            let h = orx.recv().unwrap();
            c.step();
            ensure!(h == baselines()[k], format!("{hist:?}"), "[{}] on thread {w} in the history {:?} differs from a fresh process", ts[k].name, hist.iter().map(|x| (x.0, &ts[x.1].name[..])).collect::<Vec<_>>());
        }
        drop(tx);
        for h in hs {
            let _ = h.join();
        }
        c.state();
        c.traces += 1;
        c.note(|| format!("{:?}", hist.iter().map(|x| (x.0, &ts[x.1].name[..])).collect::<Vec<_>>()));
        Ok(())
    });
    f.serial = false;
    v.push(f);
    // several live calculators and converters
    let depth = if thorough { 6 } else { 5 };
    let mut f = family("instances", format!("two sun-angle calculators and two ellipsoid converters alive together: every sequence of {depth} operations out of (re)create either, use either, against the results of fresh ones"), 8, move |i, c| {
        let ts = tokens();
        let find = |s: String| ts.iter().position(|t| t.name == s).unwrap();
        let mut kinds = [0usize, 1];
        let ps: Vec<_> = (0..4).map(sun_params).collect();
        let mut calc = [SunAngleCalculator::new(&ps[0]), SunAngleCalculator::new(&ps[1])];
        let els = [WGS84, Ellipsoid { a: 6378137.0, f: 0.0 }, Ellipsoid { a: 6378136.0, f: WGS84.f }, Ellipsoid { a: 3396190.0, f: 0.00589 }];
        let mut ek = [0usize, 1];
        let mut conv = [0, 1].map(|k| EllipsoidConverter::new(&els[k]).ok().unwrap());
        let mut ops = vec![];
        for s in 0..depth {
            let o = if s == 0 { i } else { c.choose(8) };
            ops.push(o);
            let w = o & 1;
            let (tok, got) = match o / 2 {
                0 => {
                    kinds[w] = (kinds[w] + 2) % 4;
                    calc[w] = SunAngleCalculator::new(&ps[kinds[w]]);
                    ek[w] = (ek[w] + 2) % 4;
                    conv[w] = EllipsoidConverter::new(&els[ek[w]]).ok().unwrap();
                    continue;
                }
                1 => (find(format!("sun {} 0", kinds[w])), format!("{:?}", sun_text(&ps[kinds[w]], &calc[w], 0.0))),
                2 => (find(format!("sun {} 3600", kinds[w])), format!("{:?}", sun_text(&ps[kinds[w]], &calc[w], 3600.0))),
                _ => {
                    let p = [4e6, 3e6, 4e6];
                    let g = conv[w].geocentric_to_geodetic(&p);
                    let x = conv[w].geodetic_to_geocentric(&Geodetic { elong: 1.0, phi: 0.5, height: 100.0 }).ok();
                    let t2 = find(format!("to_geocentric {} 0.5 1 100", ek[w]));
                    c.step();
                    ensure!(hash(&format!("{x:?}")) == baselines()[t2], format!("{ops:?}"), "after {ops:?} the converter for ellipsoid {} gives {x:?}", ek[w]);
                    (find(format!("to_geodetic {} {p:?}", ek[w])), format!("{g:?}"))
                }
            };
            c.step();
            ensure!(hash(&got) == baselines()[tok], format!("{ops:?}"), "after {ops:?}: [{}] gives {}, unlike in a fresh process", ts[tok].name, got.chars().take(300).collect::<String>());
        }
        c.state();
        c.traces += 1;
        c.note(|| format!("{ops:?}"));
        Ok(())
    });
    f.serial = false;
    v.push(f);
    // converters: every operation on each of two
    let depth = if thorough { 5 } else { 4 };
    let no = 2 * (1 + POINTS.len() + GEODETIC.len());
    let mut f = family("converters", format!("two ellipsoid converters: every sequence of {depth} operations out of re-creating either for another ellipsoid and converting any of {} positions one way or {} the other with either, against the results of fresh ones", POINTS.len(), GEODETIC.len()), no, move |i, c| {
        let els = [WGS84, Ellipsoid { a: 6378137.0, f: 0.0 }, Ellipsoid { a: 6378136.0, f: WGS84.f }, Ellipsoid { a: 3396190.0, f: 0.00589 }];
        let base = converter_baselines();
        let mut ek = [0usize, 1];
        let mut conv = [0, 1].map(|k| EllipsoidConverter::new(&els[k]).ok().unwrap());
        let mut ops = vec![];
        for s in 0..depth {
            let o = if s == 0 { i } else { c.choose(no) };
            ops.push(o);
            let (w, k) = (o & 1, o / 2);
            let (n, got) = if k == 0 {
                ek[w] = (ek[w] + 2) % 4;
                conv[w] = EllipsoidConverter::new(&els[ek[w]]).ok().unwrap();
                continue;
            } else if k <= POINTS.len() {
                (k - 1, hash(&format!("{:?}", conv[w].geocentric_to_geodetic(&POINTS[k - 1]))))
            } else {
                let g = GEODETIC[k - 1 - POINTS.len()];
                (k - 1, hash(&format!("{:?}", conv[w].geodetic_to_geocentric(&Geodetic { elong: g.1, phi: g.0, height: g.2 }).ok())))
            };
            c.step();
            ensure!(got == base[ek[w]][n], format!("{ops:?}"), "after the operations {ops:?} the converter for ellipsoid {} differs from a fresh one", ek[w]);
        }
        c.state();
        c.traces += 1;
        c.note(|| format!("{ops:?}"));
        Ok(())
    });
    f.serial = false;
    v.push(f);
    // one calculator asked again and again, others made in between
    let depth = if thorough { 6 } else { 5 };
    let mut f = family("calculator_sequences", format!("a calculator for each of 4 parameter sets: every sequence of {depth} operations out of computing at one of {} offsets and making and using another calculator, against the results of fresh ones", OFFSETS.len()), 4 * (OFFSETS.len() + 1), move |i, c| {
        let base = calculator_baselines();
        let k = i / (OFFSETS.len() + 1);
        let p = sun_params(k);
        let calc = SunAngleCalculator::new(&p);
        let mut ops = vec![];
        for s in 0..depth {
            let o = if s == 0 { i % (OFFSETS.len() + 1) } else { c.choose(OFFSETS.len() + 1) };
            ops.push(o);
            let (w, d, t) = if o == OFFSETS.len() {
                let q = sun_params((k + 1) % 4);
                ((k + 1) % 4, 1, sun_text(&q, &SunAngleCalculator::new(&q), OFFSETS[1]))
            } else {
                (k, o, sun_text(&p, &calc, OFFSETS[o]))
            };
            c.step();
            ensure!(hash(&format!("{t:?}")) == base[w][d], format!("{k} {ops:?}"), "calculator {k}: after the operations {ops:?} the result is {}, unlike that of a fresh one", t.chars().take(300).collect::<String>());
        }
        c.state();
        c.traces += 1;
        Ok(())
    });
    f.serial = false;
    v.push(f);
    let rounds = if thorough { 300_000 } else { 20_000 };
    // past the wrap-around of a 16-bit count
    let often = if thorough { 1_000_000 } else { 66_000 };
    let firsts: Vec<usize> = groups(&tokens()).iter().map(|g| g[0]).collect();
    v.push(family("long_use", format!("one calculator and one converter used {rounds} times over, and every call made {} times in a row, one call of each function {often} times: the last result is like the first", rounds / 40), 2 + tokens().len(), move |i, c| {
        if i == 0 {
            let p = sun_params(0);
            let calc = SunAngleCalculator::new(&p);
            for r in 0..often.min(rounds * 4) {
                let d = (r * 7 + r / 6) % OFFSETS.len();
                c.step();
                ensure!(hash(&format!("{:?}", sun_text(&p, &calc, OFFSETS[d]))) == calculator_baselines()[0][d], format!("calculator {r}"), "the calculator differs from a fresh one at use {r}");
                if r & 0xff == 0 {
                    tick();
                }
            }
        } else if i == 1 {
            let k = EllipsoidConverter::new(&WGS84).ok().unwrap();
            for r in 0..rounds {
                let n = (r * 7 + r / 11) % POINTS.len();
                c.step();
                ensure!(hash(&format!("{:?}", k.geocentric_to_geodetic(&POINTS[n]))) == converter_baselines()[0][n], format!("converter {r}"), "the converter differs from a fresh one at use {r}");
            }
        } else {
            let ts = tokens();
            for r in 0..if firsts.contains(&(i - 2)) { often } else { rounds / 40 } {
                check(&ts, i - 2, &|| format!("called {r} times before"), c)?;
                if r & 0xff == 0 {
                    tick();
                }
            }
        }
        c.state();
        c.traces += 1;
        Ok(())
    }));
    // not exhaustive: real parallelism, one run
    let rounds = if thorough { 200 } else { 10 };
    let mut f = family("parallel_smoke", format!("supplementary, not exhaustive: 8 free-running threads, {rounds} rounds of all {n} calls each, started at different points"), 1, move |_, c| {
        let ts = tokens();
        baselines();
        let bad = std::sync::Mutex::new(None);
        std::thread::scope(|s| {
            for w in 0..8 {
                let (ts, bad) = (&ts, &bad);
                s.spawn(move || {
                    for r in 0..rounds {
                        for k in 0..ts.len() {
                            let k = (k * (2 * w + 1) + 31 * w + r) % ts.len();
                            if hash(&call(&ts[k])) != baselines()[k] {
                                *bad.lock().unwrap() = Some(k);
                                return;
                            }
                        }
                        tick();
                    }
                });
            }
        });
        c.state();
        c.transitions += 8 * rounds as u64 * ts.len() as u64;
        if let Some(k) = bad.into_inner().unwrap() {
            bail!(format!("{k}"), "[{}] differs when 8 threads run together", ts[k].name);
        }
        Ok(())
    });
    f.serial = true;
    v.push(f);
    v
}
