//! C29: the command-line programs do what the library does, for every
//! combination of options, and fail on input they cannot use.

use super::calendar::{parse_date, parse_time, time_text};
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use std::io::Read;
use std::process::{Command, Stdio};
use tofas_extras::sun_angle::{SunAngleCalculator, SunAngleParameters, SunAngleResultBundle};

const CAP: u64 = 1 << 21;

/// Run a program; its exit status and (bounded) output.
fn run(bin: &str, args: &[String]) -> (bool, String) {
    let dir = std::env::var("MC_CLI").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap().parent().unwrap().to_path_buf());
    let p = dir.join(bin);
    if !p.exists() {
        eprintln!("ENGINE ERROR: {} is not built", p.display());
        std::process::exit(3);
    }
    let mut ch = match Command::new(&p).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("RUST_BACKTRACE").spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ENGINE ERROR: cannot start {}: {e}", p.display());
            std::process::exit(3);
        }
    };
    let mut b = vec![];
    let _ = ch.stdout.take().unwrap().take(CAP).read_to_end(&mut b);
    if b.len() as u64 >= CAP {
        let _ = ch.kill();
    }
    let ok = ch.wait().map(|s| s.success()).unwrap_or(false);
    (ok, String::from_utf8_lossy(&b).to_string())
}

fn line<'a>(t: &'a str, label: &str, key: &dyn std::fmt::Display) -> Result<&'a str, Fail> {
    match super::sun::report_line(t, label) {
        Some(x) => Ok(x),
        None => bail!(key, "{key}: not exactly one line {label:?} in {t:?}"),
    }
}

fn number(s: &str, key: &dyn std::fmt::Display) -> Result<f64, Fail> {
    match s.parse() {
        Ok(x) => Ok(x),
        Err(_) => bail!(key, "{key}: {s:?} is not a number"),
    }
}

fn opt(v: &mut Vec<String>, name: &str, x: impl ToString) {
    v.push(name.into());
    v.push(x.to_string());
}

/// `gregorian` with the given options against the model.
fn gregorian(sub: &str, y: i64, m: i64, d: i64, h: Option<u8>, mi: Option<u8>, s: Option<f64>, c: &mut Ctx) -> Res {
    let mut a = vec![sub.to_string()];
    opt(&mut a, "--year", y);
    opt(&mut a, "--month", m);
    opt(&mut a, "--day", d);
    if let Some(h) = h {
        opt(&mut a, "--hour", h)
    }
    if let Some(x) = mi {
        opt(&mut a, "--minute", x)
    }
    if let Some(x) = s {
        opt(&mut a, "--second", format!("{x:?}"))
    }
    let key = a.join(" ");
    let (ok, t) = run("julian_tool", &a);
    c.state();
    c.step();
    let valid = y >= -4799 && (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m);
    ensure!(ok == valid, key, "julian_tool {key}: {} ({t:?})", if ok { "accepted an invalid date" } else { "rejected a valid date" });
    if !valid {
        ensure!(!t.contains("Julian date"), key, "julian_tool {key}: failed but printed {t:?}");
        return Ok(());
    }
    let (h, mi, s) = (h.unwrap_or(12), mi.unwrap_or(0), s.unwrap_or(0.0));
    let g = line(&t, "Gregorian date", &key)?;
    ensure!(parse_date(g) == Some((y, m, d)), key, "julian_tool {key}: date {g:?}");
    time_text(h, mi, s, line(&t, "Time", &key)?, &key)?;
    let f = (h as f64 * 3600.0 + mi as f64 * 60.0 + s) / 86400.0;
    let n = Day::from_ymd(y, m, d).mjd as f64;
    let jd = number(line(&t, "Julian date", &key)?, &key)?;
    let w = n + MJD0 + f;
    ensure!((jd - w).abs() < 0.5001e-6 + w.abs() * 4e-16, key, "julian_tool {key}: Julian date {jd}, expected {w}");
    let fd = number(line(&t, "Fraction of day", &key)?, &key)?;
    ensure!((fd - f).abs() < 0.5001e-6, key, "julian_tool {key}: fraction {fd}, expected {f}");
    c.outcome(jd);
    c.note(|| format!("julian_tool {key} -> {}", t.replace('\n', " | ")));
    Ok(())
}

fn julian(sub: &str, a: f64, b: Option<f64>, c: &mut Ctx) -> Res {
    let mut v = vec![sub.to_string()];
    opt(&mut v, "--jd", format!("{a:?}"));
    if let Some(b) = b {
        opt(&mut v, "--jd2", format!("{b:?}"));
    }
    let key = v.join(" ");
    let (ok, t) = run("julian_tool", &v);
    c.state();
    c.step();
    let b = b.unwrap_or(0.0);
    let valid = a + b >= -32000.0 && a + b <= 1e9;
    ensure!(ok == valid, key, "julian_tool {key}: {} ({t:?})", if ok { "accepted" } else { "failed" });
    if !valid {
        ensure!(!t.contains("Gregorian date"), key, "julian_tool {key}: failed but printed {t:?}");
        return Ok(());
    }
    let jd = number(line(&t, "Julian date", &key)?, &key)?;
    ensure!((jd - (a + b)).abs() <= 1e-13 + (a + b).abs() * 3e-16, key, "julian_tool {key}: Julian date {jd}");
    let g = line(&t, "Gregorian date", &key)?;
    let Some((y, m, d)) = parse_date(g) else { bail!(key, "julian_tool {key}: date {g:?}") };
    ensure!((1..=12).contains(&m) && d >= 1 && d <= month_len(y, m), key, "julian_tool {key}: date {g:?}");
    let f = number(line(&t, "Fraction of day", &key)?, &key)?;
    ensure!((0.0..1.0).contains(&f), key, "julian_tool {key}: fraction {f}");
    // date and fraction against the exact sum of the two parts
    let want = fx(a) + fx(b) - fx(MJD0);
    let got = ((Day::from_ymd(y, m, d).mjd as i128) << FX) + fx(f);
    let e = fx_to_f64(got - want);
    ensure!(e.abs() < 1e-11 + 4e-16 * a.abs().max(b.abs()), key, "julian_tool {key}: {g} + {f} is off by {e:e} days");
    let Some((h, mi, s)) = parse_time(line(&t, "Time", &key)?) else { bail!(key, "julian_tool {key}: {t:?}") };
    let e = h as f64 * 3600.0 + mi as f64 * 60.0 + s - 86400.0 * f;
    ensure!(e.abs() < 0.51e-6, key, "julian_tool {key}: time off by {e:e} s: {t:?}");
    c.outcome(f);
    c.note(|| format!("julian_tool {key} -> {}", t.replace('\n', " | ")));
    Ok(())
}

/// The report the library gives.
fn report(p: &SunAngleParameters, de: f64) -> String {
    let r = SunAngleCalculator::new(p).compute(de);
    SunAngleResultBundle { parameters: p, result: &r }.to_string()
}

const NAMES: [&str; 9] = ["--year", "--month", "--day", "--hour", "--min", "--sec", "--lat", "--lon", "--height"];
const DEFAULT: [f64; 9] = [2007.0, 4.0, 5.0, 0.0, 0.0, 0.0, 0.0, -120.0, 0.0];

fn values(v: &[f64; 9]) -> SunAngleParameters {
    super::sun::params(v[0] as i64, v[1] as i64, v[2] as i64, v[3] as u8, v[4] as u8, v[5], v[6], v[7], v[8])
}

pub fn c29(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    const Y: [i64; 18] = [-4800, -4799, -1, 0, 4, 100, 1582, 1600, 1899, 1900, 2000, 2007, 2023, 2024, 2100, 2400, 9999, 100_000];
    v.push(family("gregorian_dates", format!("julian_tool gregorian: {} years x months 0..13 x days 0, 1, 28..32: accepted exactly when the date exists; date, time, Julian date, fraction", Y.len()), Y.len() * 14, |i, c| {
        for d in [0, 1, 28, 29, 30, 31, 32] {
            gregorian(["gregorian", "g"][i % 2], Y[i / 14], (i % 14) as i64, d, None, None, None, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    let ms: Vec<u8> = if thorough { (0..60).collect() } else { vec![0, 1, 29, 30, 59] };
    let nm = ms.len();
    v.push(family("gregorian_times", format!("julian_tool gregorian: 24 hours x {nm} minutes x 6 seconds, and every subset of the three options given"), 24 * nm, move |i, c| {
        let (h, m) = ((i / nm) as u8, ms[i % nm]);
        for s in [0.0, 0.5, 1.0, 30.25, 59.0, 59.9999999] {
            gregorian("g", 2007 + i as i64 % 9, 4, 5, Some(h), Some(m), Some(s), c)?;
        }
        let k = i % 8;
        gregorian("gregorian", 1999, 12, 31, (k & 1 > 0).then_some(h), (k & 2 > 0).then_some(m), (k & 4 > 0).then_some(17.125), c)
    }));
    const D: [i64; 24] = [-2432000, -2400001, -700000, -678576, -678575, -100841, -1, 0, 1, 15078, 15079, 41316, 41317, 51543, 51544, 51545, 51602, 51603, 54195, 60000, 88127, 88128, 1_000_000, 900_000_000];
    const F: [f64; 8] = [0.0, 0.5, 0.25, 0.999, 0.1, 1.0 / 3.0, 0.75, 0.00001];
    v.push(family("julian", format!("julian_tool julian: {} days x {} fractions x 7 two-part forms, with or without the second part", D.len(), F.len()), D.len() * F.len(), |i, c| {
        let (n, f) = (D[i / F.len()] as f64, F[i % F.len()]);
        let jd = n + MJD0;
        let sub = ["julian", "j"][i % 2];
        julian(sub, jd + f, None, c)?;
        for (a, b) in [(jd, f), (f, jd), (MJD0, n + f), (n + f, MJD0), (jd + 1.0, f - 1.0), (J2000, n + f - 51544.5)] {
            julian(sub, a, Some(b), c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("julian_bounds", "julian_tool julian: sums on both sides of either bound, not-a-number, infinities", 12, |i, c| {
        let x = [-32000.0, -32000.1, -1e6, 1e9, 1e9 + 1.0, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -31999.5, 999999999.5, 0.0][i];
        julian("j", x, None, c)?;
        julian("j", 0.0, Some(x), c)?;
        julian("j", x / 2.0, Some(x / 2.0), c)
    }));
    // malformed command lines
    v.push(family("failures", "missing, malformed, out-of-range and extra arguments: a non-zero exit and no result", 1, |_, c| {
        let bad = [
            ("julian_tool", ""),
            ("julian_tool", "gregory"),
            ("julian_tool", "g"),
            ("julian_tool", "j"),
            ("julian_tool", "g --year 2000 --month 1"),
            ("julian_tool", "g --year 2000 --day 1"),
            ("julian_tool", "g --month 1 --day 1"),
            ("julian_tool", "g --year x --month 1 --day 1"),
            ("julian_tool", "g --year 2000 --month 1 --day 1.5"),
            ("julian_tool", "g --year 2000 --month 1 --day"),
            ("julian_tool", "g --year 2000 --month -1 --day 1"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --hour 300"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --hour -1"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --second x"),
            ("julian_tool", "g --year 3000000000 --month 1 --day 1"),
            ("julian_tool", "j --jd"),
            ("julian_tool", "j --jd x"),
            ("julian_tool", "j --jd2 1"),
            ("julian_tool", "j --jd 2451545 --jd2 y"),
            ("julian_tool", "j --jd 2451545 --jd3 1"),
            ("julian_tool", "j --jd 2451545 1"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --seconds 5"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --sec 5"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --min 5"),
            ("julian_tool", "gregorian --year 2000 --month 1 --day 1 12"),
            ("julian_tool", "gregorian --year 2000 --month 1 --day 1 --year 2001"),
            ("julian_tool", "g --jd 2451545 --year 2000 --month 1 --day 1"),
            ("julian_tool", "g --year 2000 --month 1 --day 1 --help"),
            ("julian_tool", "j --jd 2451545 --year 2000"),
            ("julian_tool", "j --jd 2451545 --jd2 0.5 --jd2 0.5"),
            ("julian_tool", "julian --jd nan"),
            ("julian_tool", "julian --jd 1e30"),
            ("sun_angle_tool", "--scan --delta_step 0"),
            ("sun_angle_tool", "--scan --delta_step -60"),
            ("sun_angle_tool", "--scan --step 60"),
            ("sun_angle_tool", "--scan --scan"),
            ("sun_angle_tool", "--lat 10 --lat 20"),
            ("sun_angle_tool", "--minute 5"),
            ("sun_angle_tool", "--second 5"),
            ("sun_angle_tool", "--year 2007.5"),
            ("sun_angle_tool", "--delta_step one"),
            ("sun_angle_tool", "--delta1 never"),
            ("sun_angle_tool", "--year x"),
            ("sun_angle_tool", "--month 13"),
            ("sun_angle_tool", "--month 0"),
            ("sun_angle_tool", "--day 31"),
            ("sun_angle_tool", "--day 0"),
            ("sun_angle_tool", "--year 2007 --month 2 --day 29"),
            ("sun_angle_tool", "--year 1900 --month 2 --day 29"),
            ("sun_angle_tool", "--year -4800"),
            ("sun_angle_tool", "--hour 256"),
            ("sun_angle_tool", "--lat north"),
            ("sun_angle_tool", "--height"),
            ("sun_angle_tool", "--delta0 now"),
            ("sun_angle_tool", "--scam"),
            ("sun_angle_tool", "--scan extra"),
            ("sun_angle_tool", "noon"),
        ];
        let (b, a) = bad[c.choose(bad.len())];
        let v: Vec<String> = a.split_whitespace().map(|x| x.to_string()).collect();
        let (ok, t) = run(b, &v);
        c.state();
        c.step();
        ensure!(!ok, a, "{b} {a}: succeeded: {t:?}");
        ensure!(!t.contains("Gregorian date:") || a.starts_with("j "), a, "{b} {a}: failed but printed {t:?}");
        ensure!(!t.contains("Zenith"), a, "{b} {a}: failed but printed {t:?}");
        Ok(())
    }));
    // every subset of the options
    v.push(family("sun_options", "sun_angle_tool: every subset of its nine parameter options x offset given or not x 2 sets of values: the report is the library's for those parameters and the documented defaults", 512, |i, c| {
        let alt = [[1999.0, 12.0, 28.0, 23.0, 59.0, 58.5, -33.25, 151.5, 1234.5], [2016.0, 2.0, 29.0, 6.0, 7.0, 0.125, 78.5, -0.5, -400.0]][c.choose(2)];
        let de = c.pick(&[None, Some(0.0), Some(451.25), Some(7200.0), Some(-90000.5)]);
        let mut w = DEFAULT;
        let mut a = vec![];
        // options in an order that depends on the subset
        for q in 0..9 {
            let k = (q * [1, 2, 4, 5, 7, 8][i % 6] + i) % 9;
            if i >> k & 1 == 1 {
                w[k] = alt[k];
                opt(&mut a, NAMES[k], alt[k]);
            }
        }
        if let Some(x) = de {
            opt(&mut a, "--delta0", x);
        }
        let key = a.join(" ");
        let (ok, t) = run("sun_angle_tool", &a);
        c.state();
        c.step();
        let valid = w[2] as i64 <= month_len(w[0] as i64, w[1] as i64);
        ensure!(ok == valid, key, "sun_angle_tool {key}: {}", if ok { "accepted an invalid date" } else { "failed" });
        if valid {
            ensure!(!(t.is_empty() && de == Some(7200.0)), "no report without --scan when the offset exceeds 600 s", "sun_angle_tool {key} printed nothing");
            let want = report(&values(&w), de.unwrap_or(-600.0));
            ensure!(t == want, key, "sun_angle_tool {key} printed\n{t}\nexpected\n{want}");
            c.outcome(t.len() as f64);
            c.note(|| format!("sun_angle_tool {key}"));
        }
        c.traces += 1;
        Ok(())
    }));
    const D0: [Option<f64>; 5] = [None, Some(0.0), Some(-90.5), Some(-43200.0), Some(600.0)];
    const D1: [Option<f64>; 5] = [None, Some(0.0), Some(120.25), Some(-600.0), Some(43200.0)];
    const ST: [Option<f64>; 6] = [None, Some(1200.0), Some(0.25), Some(7.5), Some(100000.0), Some(600.0)];
    v.push(family("sun_scan", "sun_angle_tool --scan: 5 starts x 5 ends x 6 steps, option given or not: exactly one report for every offset of the arithmetic progression, in order, each the library's", 150, |i, c| {
        let (d0, d1, st) = (D0[i % 5], D1[i / 5 % 5], ST[i / 25]);
        let (x0, x1, xs) = (d0.unwrap_or(-600.0), d1.unwrap_or(600.0), st.unwrap_or(60.0));
        let n = if x1 < x0 { 0 } else { ((x1 - x0) / xs + 1e-9).floor() as usize + 1 };
        if n > 1500 {
            c.state();
            c.step();
            return Ok(());
        }
        let mut a = vec!["--scan".to_string()];
        for (k, x) in [("--delta0", d0), ("--delta1", d1), ("--delta_step", st)] {
            if let Some(x) = x {
                opt(&mut a, k, x);
            }
        }
        if i % 3 == 1 {
            a.rotate_left(1); // the flag last
        }
        let mut w = DEFAULT;
        if i % 2 == 1 {
            w = [2012.0, 6.0, 30.0, 23.0, 50.0, 0.0, 45.0, 10.0, 100.0];
            for (n, x) in NAMES.iter().zip(w) {
                opt(&mut a, n, x);
            }
        }
        let key = a.join(" ");
        let (ok, t) = run("sun_angle_tool", &a);
        c.state();
        ensure!(ok, key, "sun_angle_tool {key} failed");
        let Some((head, rest)) = t.split_once('\n') else { bail!(key, "sun_angle_tool {key} printed {t:?}") };
        let nums: Vec<f64> = head.split(|ch: char| ch.is_whitespace() || ch == 's').filter_map(|x| x.parse().ok()).collect();
        ensure!(nums == [x0, x1, xs], key, "sun_angle_tool {key}: heading {head:?}, expected {x0} {x1} {xs}");
        let p = values(&w);
        let calc = SunAngleCalculator::new(&p);
        let mut pos = 0;
        for k in 0..n {
            // the exact offset, or as obtained by repeated addition
            let x = x0 + k as f64 * xs;
            let near = [x, (0..k).fold(x0, |a, _| a + xs)].map(|x| {
                let r = calc.compute(x);
                format!("\n{}", SunAngleResultBundle { parameters: &p, result: &r })
            });
            let Some(want) = near.iter().find(|w| rest[pos..].starts_with(&w[..])) else {
                bail!(key, "sun_angle_tool {key}: report {k} of {n} is\n{}\nexpected\n{}", rest[pos..].chars().take(near[0].len()).collect::<String>(), near[0]);
            };
            pos += want.len();
            c.step();
        }
        ensure!(pos == rest.len(), key, "sun_angle_tool {key}: more than {n} reports");
        c.step();
        c.outcome(n as f64);
        c.traces += 1;
        c.note(|| format!("sun_angle_tool {key}: {n} reports"));
        Ok(())
    }));
    // decimal steps, whose multiples are not exact
    const STEPS: [f64; 12] = [0.1, 0.2, 0.3, 0.7, 1.1, 0.01, 1.0 / 3.0, 0.6, 3.3, 1e-3, 59.9, 0.9];
    const STARTS: [f64; 4] = [0.0, -0.7, 0.1, 1000.3];
    v.push(family("sun_scan_end", "sun_angle_tool --scan: 12 decimal steps x 4 starts x 1 to 40 steps and half-way ends: the end is included exactly when a whole number of steps reaches it", 48, |i, c| {
        let (st, x0) = (STEPS[i % 12], STARTS[i / 12]);
        let n = 1 + c.choose(40);
        let half = c.pick(&[0.0, 0.5]);
        let x1 = x0 + (n as f64 + half) * st;
        // as typed by a user: rounded to nine decimals
        let r = |x: f64| (x * 1e9).round() / 1e9;
        if st == 1.0 / 3.0 && half == 0.0 {
            return Ok(());
        }
        let a: Vec<String> = ["--scan", "--delta0", &r(x0).to_string(), "--delta1", &r(x1).to_string(), "--delta_step", &r(st).to_string()].map(String::from).to_vec();
        let key = a.join(" ");
        let (ok, t) = run("sun_angle_tool", &a);
        c.state();
        c.step();
        let g = t.matches("Sun Zenith angle").count();
        // offsets obtained by repeated addition can pass the end by rounding
        let past = (0..n).fold(r(x0), |a, _| a + r(st)) > r(x1);
        ensure!(!(ok && half == 0.0 && g == n && past), "the last offset is lost when repeated addition of the step rounds above the end", "sun_angle_tool {key}: {g} reports, expected {}", n + 1);
        ensure!(ok && g == n + 1, key, "sun_angle_tool {key}: {g} reports, expected {}", n + 1);
        c.traces += 1;
        Ok(())
    }));
    v
}
