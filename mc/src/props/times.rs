//! C07, C08: TAI-UTC and the time-scale conversions.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::calendar::GregorianDate;
use tofas::delta_at::{DeltaAt, DeltaAtError};
use tofas::time::{TAI, TDB, TT, UT1, UTC};

fn fractions() -> Vec<f64> {
    let mut f = vec![0.0, 5e-324, 1e-12, 1e-5, 0.1, 0.25, 0.5, 0.75, 0.9999, 1.0f64.next_down(), 1.0];
    f.extend(dict::numbers(0.0, 1.0, &[&|x| x]));
    f
}

fn dat_point(d: &Day, f: f64, c: &mut Ctx) -> Res {
    let g = GregorianDate { year: d.y as i32, month: d.m as i32, day: d.d as i32 };
    c.step();
    let key = format_args!("{:04}-{:02}-{:02} {f:?}", d.y, d.m, d.d);
    let r = match g.delta_at(f) {
        Ok(r) => r,
        Err(e) => bail!(key, "delta_at({g},{f:?}) rejected: {e}"),
    };
    let w = tai_utc(d.mjd, f);
    match (r, w) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            ensure!((a - b).abs() <= 1e-11, key, "TAI-UTC on {g} + {f:?} is {a:?}, expected {b:?}");
            c.outcome(a);
        }
        _ => bail!(key, "TAI-UTC on {g} + {f:?} is {r:?}, expected {w:?}"),
    }
    Ok(())
}

pub fn c07(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let fr = fractions();
    let (lo, hi) = (-100_000i64, if thorough { 10_000_000 } else { 900_000i64 });
    const CH: i64 = 500;
    {
        let fr = fr.clone();
        v.push(family("every_day", format!("every day MJD {lo}..{hi} (years 1585 to {}) x {} fractions of day (each third of them in turn outside 1960-1995), against the announced list of steps", Day::from_mjd(hi).y, fr.len()), ((hi - lo) / CH) as usize, move |i, c| {
            let mut d = Day::from_mjd(lo + i as i64 * CH);
            for _ in 0..CH {
                for &f in fr.iter().skip(d.mjd as usize % 3).step_by(if (36900..50000).contains(&d.mjd) || thorough { 1 } else { 3 }) {
                    dat_point(&d, f, c)?;
                }
                dat_point(&d, (d.mjd as f64 * 0.618033988749895).rem_euclid(1.0), c)?;
                c.state();
                d.next();
            }
            c.traces += 1;
            c.note(|| format!("{CH} days before {:04}-{:02}-{:02}, TAI-UTC {:?}", d.y, d.m, d.d, tai_utc(d.mjd, 0.0)));
            Ok(())
        }));
    }
    {
        v.push(family("fine_fractions", "every day 1959-12-01..1972-02-28 (rate era and its ends) x 1441 fractions (every minute)", 4472, |i, c| {
            let d = Day::from_mjd(36903 + i as i64);
            for k in 0..=1440 {
                dat_point(&d, k as f64 / 1440.0, c)?;
                c.state();
            }
            Ok(())
        }));
    }
    // every year the constructor accepts, sampled by nothing: all of them in
    // the near range, then extremes
    let mut ys: Vec<i64> = (-4799..12000).collect();
    for y in [100_000, 1_000_000, 1 << 24, 178956969, 178956970, 178956971, 357913940, 357913941, 357913942, 1 << 30, 2147483646, 2147483647] {
        ys.extend([y - 1, y]);
    }
    ys.extend(dict::ints().into_iter().flat_map(|y| [y - 1, y, y + 1]).filter(|y| *y >= 12000 && *y <= 2147483647));
    ys.sort();
    ys.dedup();
    let ny = ys.len();
    v.push(family("years", format!("{ny} years (all of -4799..11999, extremes, source literals) x 12 months x first and last day"), ny, move |i, c| {
        for m in 1..=12 {
            for d in [1, month_len(ys[i], m)] {
                for f in [0.0, 1.0] {
                    dat_point(&Day::from_ymd(ys[i], m, d), f, c)?;
                }
                c.state();
            }
        }
        Ok(())
    }));
    let mut bad = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -5e-324, -1e-300, -1e-9, -0.5, -1.0, 1.0f64.next_up(), 1.0 + 1e-9, 1.5, 2.0, 86400.0, 1e300];
    bad.extend(dict::around(1.0f64.next_up(), 1e300, &[&|x| x]));
    let days = [(1959, 12, 31), (1960, 1, 1), (1965, 5, 5), (1972, 1, 1), (2007, 4, 5), (2017, 1, 1), (2030, 1, 1), (-4000, 1, 1)];
    v.push(family("rejects", format!("{} fractions outside [0,1] x {} dates", bad.len(), days.len()), bad.len(), move |i, c| {
        for (y, m, d) in days {
            let f = bad[i];
            let g = GregorianDate { year: y, month: m, day: d };
            let r = g.delta_at(f);
            c.state();
            c.step();
            ensure!(matches!(r, Err(DeltaAtError::BadFract)), format!("{y} {f:?}"), "delta_at({g},{f:?}) = {r:?}, expected BadFract");
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C08

#[derive(Clone, Copy, Debug)]
enum S {
    Utc(f64, f64),
    Tai(f64, f64),
    Tt(f64, f64),
    Ut1(f64, f64),
    Tdb(f64, f64),
}

impl S {
    fn parts(&self) -> (f64, f64) {
        match *self {
            S::Utc(a, b) | S::Tai(a, b) | S::Tt(a, b) | S::Ut1(a, b) | S::Tdb(a, b) => (a, b),
        }
    }
}

/// The conversion graph.  Each edge: implementation call and the offset in
/// seconds the model adds.
fn edges(s: S, o: f64) -> Vec<(&'static str, S, f64)> {
    match s {
        S::Utc(a, b) => {
            let TAI((x, y)) = TAI::from_utc_delta_at(UTC((a, b)), o);
            vec![("UTC->TAI", S::Tai(x, y), o)]
        }
        S::Tai(a, b) => {
            let TT((x, y)) = TT::from(TAI((a, b)));
            vec![("TAI->TT", S::Tt(x, y), 32.184)]
        }
        S::Tt(a, b) => {
            let UT1((x, y)) = UT1::from_tt(TT((a, b)), o);
            let TDB((u, w)) = TDB::from_tt(TT((a, b)), o);
            vec![("TT->UT1", S::Ut1(x, y), -o), ("TT->TDB", S::Tdb(u, w), o)]
        }
        S::Ut1(a, b) => {
            let TT((x, y)) = TT::from_ut1(UT1((a, b)), o);
            vec![("UT1->TT", S::Tt(x, y), o)]
        }
        S::Tdb(..) => vec![],
    }
}

fn total_of(s: S) -> Option<f64> {
    Some(match s {
        S::Utc(a, b) => UTC((a, b)).total(),
        S::Tai(a, b) => TAI((a, b)).total(),
        S::Tt(a, b) => TT((a, b)).total(),
        S::Ut1(a, b) => UT1((a, b)).total(),
        S::Tdb(..) => return None,
    })
}

const TIME_PAIRS_BASE: [f64; 13] = [2400000.5, 2451545.0, 2451544.5, 2440000.5, 2459580.5, 2415020.5, 2488069.5, 1721045.5, 2299160.5, 0.5, 1.0, 2816787.5, 2469807.5];

fn time_pairs() -> Vec<(f64, f64)> {
    let mut v = vec![];
    for j in TIME_PAIRS_BASE {
        for f in [0.0, 0.5, 0.123456789012345, 0.999999999, 1e-10] {
            for (a, b) in [(j, f), (MJD0, (j - MJD0) + f), (J2000, (j - J2000) + f), (j + f, 0.0), ((j + f) / 2.0, (j + f) / 2.0), ((j + f) / 3.0, (j + f) * 2.0 / 3.0), (j - 1.0, 1.0 + f), (j + 1.0, f - 1.0)] {
                v.push((a, b));
                v.push((b, a));
            }
        }
    }
    for x in dict::around(-1e7, 1e7, &[&|x| x]) {
        v.push((x, 0.25));
        v.push((MJD0, x));
        v.push((x, MJD0));
    }
    v.push((0.0, 0.0));
    v.push((0.5, 0.5));
    v.push((2451545.0, 2451545.0));
    v
}

fn offsets(thorough: bool) -> Vec<f64> {
    let mut o = vec![0.0, -0.072073685, 0.3341, 32.184, 33.0, 37.0, 65.25, 69.184, -0.9, 1e-6, -1e-6, 1.657e-3, -1.657e-3, 1.417818, 86400.0, -86400.0, 43200.0, 17190.0, 25000.0, 1.0, 60.0, -3.0, 3600.0];
    let d = dict::around(-1e5, 1e5, &[&|x| x]);
    if thorough {
        o.extend(d);
    } else {
        o.extend(d.into_iter().step_by(3));
    }
    o
}

pub fn c08(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let pairs = time_pairs();
    let offs = offsets(thorough);
    let np = pairs.len();
    let depth = if thorough { 5 } else { 3 };
    v.push(family(
        "conversion_graph",
        format!("state = (scale, two-part date), transitions = every conversion out of the scale; {np} starting dates x 4 starting scales x {} offsets, all paths up to depth {depth}; at every state the exact sum must equal the start plus the exact net offset", offs.len()),
        np,
        move |i, c| {
            let (a, b) = pairs[i];
            let o = c.pick(&offs);
            for st in [S::Utc(a, b), S::Tai(a, b), S::Tt(a, b), S::Ut1(a, b)] {
                let key0 = format_args!("{st:?} {o:?}");
                let mut stack = vec![(st, 0.0f64, 0.0f64, 0usize, String::new())];
                let s0 = fx(a) + fx(b);
                while let Some((s, net, tol, dep, path)) = stack.pop() {
                    c.state();
                    let (p, q) = s.parts();
                    if let Some(t) = total_of(s) {
                        ensure!((t - (p + q)).abs() <= f64::EPSILON * (p.abs() + q.abs()), key0, "{s:?}.total() = {t:?}");
                    }
                    if dep == depth {
                        c.traces += 1;
                        continue;
                    }
                    let es = edges(s, o);
                    if es.is_empty() {
                        c.traces += 1;
                    }
                    for (name, n, off) in es {
                        let (x, y) = n.parts();
                        c.step();
                        let net2 = net + off;
                        let got = fx(x) + fx(y) - s0;
                        let want = fx(net2) / 86400;
                        // the offset belongs in the part where it costs least
                        let m = if p >= 0.0 && q >= 0.0 { p.min(q) } else { p.abs().max(q.abs()) };
                        let tol2 = tol + 1.5 * f64::EPSILON * (m + off.abs() / 86400.0 * 2.0);
                        let e = fx_to_f64(got - want);
                        let pth = format!("{path} {name}");
                        ensure!(e.abs() <= tol2 + 1e-20, key0, "{st:?} with offset {o:?} s along{pth} gives {n:?}: off by {:e} s", e * 86400.0);
                        c.outcome(x + y);
                        stack.push((n, net2, tol2, dep + 1, pth));
                    }
                }
            }
            c.note(|| format!("({a:?},{b:?}) with offset {o:?} s, all conversion paths to depth {depth}"));
            Ok(())
        },
    ));
    // there and back
    let pairs = time_pairs();
    let offs = offsets(true);
    v.push(family("there_and_back", format!("{np} dates x {} offsets: TT -> UT1 -> TT and UT1 -> TT -> UT1 return to the same instant", offs.len()), np, move |i, c| {
        let (a, b) = pairs[i];
        for &o in &offs {
            let u = UT1::from_tt(TT((a, b)), o);
            let TT((x, y)) = TT::from_ut1(u, o);
            let t = TT::from_ut1(UT1((a, b)), o);
            let UT1((p, q)) = UT1::from_tt(t, o);
            c.transitions += 4;
            c.state();
            let m = if a >= 0.0 && b >= 0.0 { a.min(b) } else { a.abs().max(b.abs()) };
            // after the first step the parts may have changed places near equality
            let m = if (a - b).abs() <= 2.0 * o.abs() / 86400.0 { a.abs().max(b.abs()) } else { m };
            let tol = 4.0 * f64::EPSILON * (m + o.abs() / 86400.0) + 1e-20;
            let e1 = fx_to_f64(fx(x) + fx(y) - fx(a) - fx(b));
            let e2 = fx_to_f64(fx(p) + fx(q) - fx(a) - fx(b));
            ensure!(e1.abs() <= tol && e2.abs() <= tol, format!("{a:?},{b:?},{o:?}"), "({a:?},{b:?}) with offset {o:?} s comes back off by {e1:e} and {e2:e} day");
        }
        Ok(())
    }));
    // TAI-UTC composed with the chain, for every day of the table era
    v.push(family("utc_to_tt", "every day 1960-01-01..2030-12-31 at 4 times of day: TT-UTC through calendar, table and chain equals 32.184 s plus the announced TAI-UTC", 25933, |i, c| {
        let d = Day::from_mjd(36934 + i as i64);
        let g = GregorianDate { year: d.y as i32, month: d.m as i32, day: d.d as i32 };
        for f in [0.0, 0.25, 0.5, 0.99999] {
            let key = format_args!("{} {f}", d.mjd);
            let (j0, j1) = g.to_julian();
            let Ok(Some(dat)) = g.delta_at(f) else { bail!(key, "no TAI-UTC on {g}") };
            let u = UTC((j0, j1 + f));
            let TT((x, y)) = TAI::from_utc_delta_at(u, dat).into();
            let e = fx_to_f64(fx(x) + fx(y) - fx(MJD0)) - (d.mjd as f64 + f);
            let exact = fx_to_f64(fx(x) + fx(y) - fx(MJD0) - ((d.mjd as i128) << FX) - fx(f)) * 86400.0;
            let w = tai_utc(d.mjd, f).unwrap() + 32.184;
            c.state();
            c.transitions += 3;
            c.outcome(w);
            ensure!((exact - w).abs() < 3e-6, key, "TT-UTC on {g}+{f} is {exact} s ({e} d), expected {w}");
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("every_day", "every day 1800-2200 at a time of day differing from day to day, in the forms (midnight, fraction), (2400000.5, day), (J2000, days), (whole, 0), a day aside and in halves, either order, x 6 offsets x every conversion", 146100, |i, c| {
        let n = i as i64 - 73050;
        let f = (n as f64 * 0.618033988749895).rem_euclid(1.0);
        let m = (n + 51544) as f64;
        for (p, q) in [(m + MJD0, f), (MJD0, m + f), (J2000, n as f64 + (f - 0.5)), (m + MJD0 + f, 0.0), (m + MJD0 + 1.0, f - 1.0), ((m + MJD0) / 2.0, (m + MJD0) / 2.0 + f)] {
            for (a, b) in [(p, q), (q, p)] {
                for o in [0.0, 32.184 + 1e-3 * (n % 100) as f64, 64.0 + f, -0.9 * f, 1.6e-3 * (f - 0.5), 17000.0 * f] {
                    for st in [S::Utc(a, b), S::Tai(a, b), S::Tt(a, b), S::Ut1(a, b)] {
                        for (name, g, off) in edges(st, o) {
                            let (x, y) = g.parts();
                            c.step();
                            let s = if a >= 0.0 && b >= 0.0 { a.min(b) } else { a.abs().max(b.abs()) };
                            let tol = 1.5 * f64::EPSILON * (s + off.abs() / 86400.0 * 2.0) + 1e-20;
                            let e = fx_to_f64(fx(x) + fx(y) - fx(a) - fx(b) - fx(off) / 86400);
                            ensure!(e.abs() <= tol, format_args!("{a:?},{b:?},{o:?}"), "{name} from ({a:?},{b:?}) with offset {o:?} s gives {g:?}: off by {:e} s", e * 86400.0);
                        }
                    }
                }
            }
        }
        c.state();
        Ok(())
    }));
    v
}
