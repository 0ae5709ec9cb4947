//! Alphabet extension: the numeric literals that occur in the sources under
//! test (outside the big data tables).  A threshold or special case written
//! into the code shows up here, so the enumerations visit it and both of its
//! sides.  This only adds inputs; it never influences a verdict.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

fn repo() -> String {
    std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into())
}

fn scan(dir: &Path, out: &mut BTreeSet<u64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if p.is_dir() {
            if name != "target" {
                scan(&p, out);
            }
        } else if name.ends_with(".rs") && !["test_data.rs", "epv00_data.rs", "tests.rs"].contains(&&name[..]) {
            if let Ok(s) = std::fs::read_to_string(&p) {
                for line in s.lines() {
                    let t = line.trim_start();
                    // rows of data tables and comments
                    if t.starts_with("//") || (t.starts_with('[') && t.matches(',').count() >= 2) || t.starts_with("DatData {") {
                        continue;
                    }
                    literals(t, out);
                }
            }
        }
    }
}

fn literals(s: &str, out: &mut BTreeSet<u64>) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'_' || b[i] == b'.') {
                if b[i] == b'.' && (i + 1 < b.len() && (b[i + 1] == b'.' || b[i + 1].is_ascii_alphabetic())) {
                    break;
                }
                i += 1;
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'-' || b[j] == b'+') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            let txt: String = s[st..i].chars().filter(|c| *c != '_').collect();
            if let Ok(v) = txt.parse::<f64>() {
                out.insert(v.to_bits());
            }
        } else {
            i += 1;
        }
    }
}

/// All literals, positive, sorted.
pub fn literals_all() -> &'static [f64] {
    static L: OnceLock<Vec<f64>> = OnceLock::new();
    L.get_or_init(|| {
        let mut s = BTreeSet::new();
        scan(Path::new(&format!("{}/crates", repo())), &mut s);
        let mut v: Vec<f64> = s.into_iter().map(f64::from_bits).filter(|x| x.is_finite()).collect();
        v.truncate(3000);
        v
    })
}

/// Literals with both signs and neighbours, mapped by `f`, kept inside [lo,hi].
pub fn around(lo: f64, hi: f64, f: &[&dyn Fn(f64) -> f64]) -> Vec<f64> {
    let mut s = BTreeSet::new();
    for &v in literals_all() {
        for g in f {
            for w in [v, -v] {
                let x = g(w);
                for y in [x, x.next_up(), x.next_down()] {
                    if y >= lo && y <= hi {
                        s.insert(ord(y));
                    }
                }
            }
        }
    }
    s.into_iter().map(unord).collect()
}

/// Literals, powers of ten, and 1 +- powers of ten (both signs, with
/// neighbours), mapped by `f`, kept inside [lo,hi].
pub fn numbers(lo: f64, hi: f64, f: &[&dyn Fn(f64) -> f64]) -> Vec<f64> {
    let mut s: BTreeSet<i64> = around(lo, hi, f).into_iter().map(ord).collect();
    for k in -17..=17 {
        for m in [1.0, 2.0, 5.0] {
            let x = m * 10f64.powi(k);
            for y in [x, 1.0 + x, 1.0 - x] {
                for g in f {
                    for z in [g(y), g(-y)] {
                        if z >= lo && z <= hi {
                            s.insert(ord(z));
                        }
                    }
                }
            }
        }
    }
    s.into_iter().map(unord).collect()
}

fn ord(x: f64) -> i64 {
    let b = x.to_bits() as i64;
    if b < 0 { i64::MIN - b } else { b }
}
fn unord(o: i64) -> f64 {
    f64::from_bits(if o < 0 { (i64::MIN - o) as u64 } else { o as u64 })
}

/// Integer literals that fit in i32.
pub fn ints() -> Vec<i64> {
    literals_all().iter().filter(|x| x.fract() == 0.0 && x.abs() < 2e9).map(|x| *x as i64).collect()
}

/// Names in capitals quoted in the sources, as those of environment variables are.
pub fn names() -> Vec<String> {
    fn walk(dir: &Path, out: &mut BTreeSet<String>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                if e.file_name() != "target" {
                    walk(&p, out);
                }
            } else if p.extension().is_some_and(|x| x == "rs") {
                let s = std::fs::read_to_string(&p).unwrap_or_default();
                for q in s.split('"').skip(1) {
                    let ok = |b: u8| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_';
                    if q.len() > 2 && q.len() < 40 && q.bytes().all(ok) && q.bytes().any(|b| b.is_ascii_uppercase()) {
                        out.insert(q.into());
                    }
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    walk(&Path::new(&repo()).join("crates"), &mut out);
    out.into_iter().take(40).collect()
}
