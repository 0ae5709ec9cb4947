//! C30: the shared constants, limits and elementary functions.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::calendar::{GregorianDate, HMS};

/// The library's constants and functions.  Each is looked up in an inner
/// scope first; one the library no longer offers falls back on the true one.
#[allow(unused_imports, dead_code, non_upper_case_globals)]
mod lib {
    macro_rules! k {
        ($n:ident, $m:ident, $fallback:expr) => {{
            const $n: f64 = $fallback;
            (stringify!($n), {
                use tofas::$m::*;
                $n as f64
            })
        }};
    }

    pub fn reals() -> Vec<(&'static str, f64)> {
        vec![
            k!(D2S, time, 86400.0),
            k!(DJY, time, 365.25),
            k!(DJC, time, 36525.0),
            k!(DJ00, time, 2451545.0),
            k!(DTAT, time, 32.184 / 86400.0),
            k!(MJD_ZERO, calendar, 2400000.5),
            k!(PI, common, std::f64::consts::PI),
            k!(TWO_PI, common, std::f64::consts::TAU),
            k!(DEGREE, common, std::f64::consts::PI / 180.0),
            k!(AS2R, common, std::f64::consts::PI / 648000.0),
            k!(MAS2R, common, std::f64::consts::PI / 648000000.0),
            k!(TURNAS, common, 1296000.0),
            k!(EPSILON, common, f64::EPSILON),
            k!(AUM, earth, 149597870700.0),
            k!(DJ_MIN, calendar, -32000.0),
            k!(DJ_MAX, calendar, 1e9),
            k!(YEAR_MIN, calendar, -4799.0),
        ]
    }

    macro_rules! f {
        ($n:ident) => {
            pub mod $n {
                fn $n(x: f64) -> f64 {
                    super::super::truth(stringify!($n), x)
                }
                pub fn call(x: f64) -> f64 {
                    use tofas::common::*;
                    $n(x)
                }
            }
        };
    }
    f!(sqrt);
    f!(sq);
    f!(sin);
    f!(cos);
    f!(tan);
    f!(acos);
    f!(asin);
    f!(atan);
    f!(abs);
    f!(floor);
    f!(round);
    pub mod atan2 {
        fn atan2(y: f64, x: f64) -> f64 {
            y.atan2(x)
        }
        pub fn call(y: f64, x: f64) -> f64 {
            use tofas::common::*;
            atan2(y, x)
        }
    }
}

fn truth(n: &str, x: f64) -> f64 {
    match n {
        "sqrt" => x.sqrt(),
        "sq" => x * x,
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "acos" => x.acos(),
        "asin" => x.asin(),
        "atan" => x.atan(),
        "abs" => x.abs(),
        "floor" => x.floor(),
        _ => x.round(),
    }
}

const FUNCTIONS: [(&str, fn(f64) -> f64, fn(f64) -> f64); 11] = [
    ("sqrt", lib::sqrt::call, |x| x.sqrt()),
    ("sq", lib::sq::call, |x| x * x),
    ("sin", lib::sin::call, |x| x.sin()),
    ("cos", lib::cos::call, |x| x.cos()),
    ("tan", lib::tan::call, |x| x.tan()),
    ("acos", lib::acos::call, |x| x.acos()),
    ("asin", lib::asin::call, |x| x.asin()),
    ("atan", lib::atan::call, |x| x.atan()),
    ("abs", lib::abs::call, |x| x.abs()),
    ("floor", lib::floor::call, |x| x.floor()),
    ("round", lib::round::call, |x| x.round()),
];

/// Equal to within a few units in the last place; infinities and NaN alike.
fn same(a: f64, b: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a == b || (a - b).abs() <= 4.0 * f64::EPSILON * b.abs() + 1e-320
}

fn all_of(x: f64, c: &mut Ctx) -> Res {
    for (n, f, g) in FUNCTIONS {
        let (a, b) = (f(x), g(x));
        ensure!(same(a, b), format_args!("{n} {x:e}"), "{n}({x:?}) is {a:?}, expected {b:?}");
    }
    c.transitions += FUNCTIONS.len() as u64;
    c.state();
    Ok(())
}

pub fn c30(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let want: Vec<(&str, f64, f64)> = vec![
        ("D2S", 86400.0, 0.0),
        ("DJY", 365.25, 0.0),
        ("DJC", 36525.0, 0.0),
        ("DJ00", J2000, 0.0),
        ("DTAT", 32.184 / 86400.0, 1e-18),
        ("MJD_ZERO", MJD0, 0.0),
        ("PI", 3.14159265358979323846, 1e-15),
        ("TWO_PI", 6.28318530717958647693, 2e-15),
        ("DEGREE", 0.0174532925199432957692, 1e-17),
        ("AS2R", 4.84813681109535993590e-6, 4e-21),
        ("MAS2R", 4.84813681109535993590e-9, 4e-24),
        ("TURNAS", 1296000.0, 0.0),
        ("EPSILON", 2f64.powi(-52), 0.0),
        ("AUM", 149597870700.0, 0.0),
        ("DJ_MIN", -32000.0, 0.0),
        ("DJ_MAX", 1e9, 0.0),
        ("YEAR_MIN", -4799.0, 0.0),
    ];
    let n = want.len();
    v.push(family("constants", format!("{n} public constants: units, epochs and limits"), n, move |i, c| {
        let (nm, w, t) = want[i];
        c.state();
        c.step();
        match lib::reals().iter().find(|x| x.0 == nm) {
            Some(&(_, x)) => ensure!((x - w).abs() <= t, nm, "{nm} is {x:?}, expected {w:?}"),
            None => bail!(nm, "{nm} is not listed"),
        }
        Ok(())
    }));
    v.push(family("limits", "the published limits are the ones applied: years and Julian dates from 64 steps within to 64 beyond each", 3, |i, c| {
        let l = lib::reals();
        let l = |n: &str| l.iter().find(|x| x.0 == n).unwrap().1;
        let mut x = [l("DJ_MIN"), l("DJ_MAX"), l("YEAR_MIN")][i];
        if i == 2 {
            for k in -64..=64i32 {
                let y = x as i32 + k;
                let r = GregorianDate::new(y, 6, 15);
                c.state();
                c.step();
                ensure!(r.is_ok() == (k >= 0), format_args!("{y}"), "new({y},6,15) = {r:?} though the limit is {x}");
            }
            return Ok(());
        }
        for _ in 0..64 {
            x = x.next_down();
        }
        for _ in 0..129 {
            let r = GregorianDate::from_julian(x, 0.0);
            c.state();
            c.step();
            ensure!(r.is_ok() == (x >= l("DJ_MIN") && x <= l("DJ_MAX")), format_args!("{x:?}"), "from_julian({x:?},0) = {r:?}");
            x = x.next_up();
        }
        Ok(())
    }));
    v.push(family("messages", "every ordered pair of the causes of refusal: the same cause has the same text, different causes different ones", 5, |i, c| {
        let e = |k: usize| -> String {
            match k {
                0 => GregorianDate::new(-5000, 1, 1).unwrap_err().to_string(),
                1 => GregorianDate::new(2000, 13, 1).unwrap_err().to_string(),
                2 => GregorianDate::new(2000, 1, 32).unwrap_err().to_string(),
                3 => GregorianDate::from_julian(2e9, 0.0).unwrap_err().to_string(),
                _ => HMS::from_fraction_of_day(2.0).unwrap_err().to_string(),
            }
        };
        for j in 0..5 {
            let (a, b) = (e(i), e(j));
            c.state();
            c.step();
            ensure!(!a.trim().is_empty() && (a == b) == (i == j), format_args!("{i} {j}"), "refusals {i} and {j} read {a:?} and {b:?}");
        }
        Ok(())
    }));
    let step: u32 = if thorough { 1 } else { 61 };
    let per = 1u64 << 20;
    let total = (1u64 << 32) / step as u64;
    v.push(family(
        "single_precision",
        format!("every {}single-precision number (also infinities and NaN), with a tail that differs from number to number: 11 elementary functions", if step == 1 { String::new() } else { format!("{step}st ") }),
        (total / per + 1) as usize,
        move |i, c| {
            for k in i as u64 * per..((i as u64 + 1) * per).min(total) {
                let b = (k * step as u64) as u32;
                let x = f32::from_bits(b) as f64;
                // half of them exactly representable, half not
                let x = if k % 2 == 0 || !x.is_finite() { x } else { f64::from_bits(x.to_bits() ^ (b.wrapping_mul(0x9e3779b1) >> 4) as u64) };
                all_of(x, c)?;
            }
            tick();
            c.traces += 1;
            Ok(())
        },
    ));
    let n = if thorough { 8_000_000 } else { 400_000 };
    v.push(family("ordinary", format!("every 1e-5 from -{0} to {0} and every hundredth of a degree through 50 turns", n / 100_000), 200, move |i, c| {
        for k in (i as i64 - 100) * n / 100..(i as i64 - 99) * n / 100 {
            all_of(k as f64 * 1e-5, c)?;
            all_of(k as f64 * 9.0 * TAU / 36000.0 / 2.0, c)?;
        }
        Ok(())
    }));
    let xs = {
        let mut x = dict::numbers(-1e18, 1e18, &[&|x| x, &|x| x * DEG, &|x| 1.0 + x]);
        x.extend([0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324]);
        for k in -48..=48 {
            let y = k as f64 * PI / 12.0;
            x.extend([y, y.next_up(), y.next_down()]);
        }
        for k in -20..=20 {
            let y = k as f64 / 2.0;
            x.extend([y, y.next_up(), y.next_down()]);
        }
        x
    };
    let nx = xs.len();
    v.push(family("special", format!("{nx} values (around source literals, halves, multiples of 15 degrees, extremes), and all pairs of them as the two arguments of the arc tangent"), nx, move |i, c| {
        all_of(xs[i], c)?;
        for &x in &xs {
            let (y, x) = (xs[i], x);
            let (a, b) = (lib::atan2::call(y, x), y.atan2(x));
            ensure!(same(a, b) && (a.is_nan() || a.is_sign_negative() == b.is_sign_negative()), format_args!("atan2 {y:e} {x:e}"), "atan2({y:?},{x:?}) is {a:?}, expected {b:?}");
            c.state();
            c.step();
        }
        Ok(())
    }));
    v
}
