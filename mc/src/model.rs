//! Reference models.  Nothing here calls the code under test.

#![allow(dead_code)]
use std::sync::OnceLock;

pub const PI: f64 = std::f64::consts::PI;
pub const TAU: f64 = std::f64::consts::TAU;
pub const DEG: f64 = PI / 180.0;
pub const AS: f64 = PI / 648000.0;
pub const J2000: f64 = 2451545.0;
pub const MJD0: f64 = 2400000.5;

// ---------------------------------------------------------------- calendar

pub fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Modified Julian day number of a proleptic Gregorian date.
pub fn mjd_of(y: i64, m: i64, d: i64) -> i64 {
    // days before 1 January of year y, counted from 1 January of year 1
    let p = y - 1;
    let mut n = 365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400);
    for k in 1..m {
        n += month_len(y, k);
    }
    n + d - 1 - 678575 // 0001-01-01 is MJD -678575
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Day {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub mjd: i64,
}

impl Day {
    pub fn from_ymd(y: i64, m: i64, d: i64) -> Day {
        Day { y, m, d, mjd: mjd_of(y, m, d) }
    }
    /// Date of a day number: estimate the year, then walk.
    pub fn from_mjd(n: i64) -> Day {
        let mut y = ((n + 678575) as f64 / 365.2425).floor() as i64 + 1;
        while mjd_of(y, 1, 1) > n {
            y -= 1
        }
        while mjd_of(y + 1, 1, 1) <= n {
            y += 1
        }
        let mut m = 1;
        let mut r = n - mjd_of(y, 1, 1);
        while r >= month_len(y, m) {
            r -= month_len(y, m);
            m += 1;
        }
        Day { y, m, d: r + 1, mjd: n }
    }
    /// The transition of the calendar automaton.
    #[inline]
    pub fn next(&mut self) {
        self.mjd += 1;
        self.d += 1;
        if self.d > 28 && self.d > month_len(self.y, self.m) {
            self.d = 1;
            self.m += 1;
            if self.m > 12 {
                self.m = 1;
                self.y += 1;
            }
        }
    }
}

// ------------------------------------------------- exact sums (fixed point)

pub const FX: i32 = 72;

/// x * 2^72, truncated; |x| < 2^54.
pub fn fx(x: f64) -> i128 {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let mut m = (b & ((1 << 52) - 1)) as i128;
    let e = if e == 0 {
        1
    } else {
        m |= 1 << 52;
        e
    };
    let sh = e - 1075 + FX;
    let v = if sh >= 0 {
        m << sh
    } else if sh > -127 {
        m >> (-sh)
    } else {
        0
    };
    if b >> 63 != 0 {
        -v
    } else {
        v
    }
}

pub fn fx_to_f64(v: i128) -> f64 {
    v as f64 / (2f64).powi(FX)
}

/// Exact a+b as a pair.
pub fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

/// (d1 + d2 - J2000) evaluated without cancellation.
pub fn days_j2000(d1: f64, d2: f64) -> f64 {
    fx_to_f64(fx(d1) + fx(d2) - fx(J2000))
}

// ------------------------------------------------------------ TAI-UTC table

/// (MJD of first day, offset, reference MJD, rate), from the IERS/USNO
/// announcement list (tai-utc.dat; the 1960 line is SOFA's).
pub const TAI_UTC: &[(i64, f64, f64, f64)] = &[
    (36934, 1.4178180, 37300.0, 0.001296),
    (37300, 1.4228180, 37300.0, 0.001296),
    (37512, 1.3728180, 37300.0, 0.001296),
    (37665, 1.8458580, 37665.0, 0.0011232),
    (38334, 1.9458580, 37665.0, 0.0011232),
    (38395, 3.2401300, 38761.0, 0.001296),
    (38486, 3.3401300, 38761.0, 0.001296),
    (38639, 3.4401300, 38761.0, 0.001296),
    (38761, 3.5401300, 38761.0, 0.001296),
    (38820, 3.6401300, 38761.0, 0.001296),
    (38942, 3.7401300, 38761.0, 0.001296),
    (39004, 3.8401300, 38761.0, 0.001296),
    (39126, 4.3131700, 39126.0, 0.002592),
    (39887, 4.2131700, 39126.0, 0.002592),
    (41317, 10.0, 0.0, 0.0),
    (41499, 11.0, 0.0, 0.0),
    (41683, 12.0, 0.0, 0.0),
    (42048, 13.0, 0.0, 0.0),
    (42413, 14.0, 0.0, 0.0),
    (42778, 15.0, 0.0, 0.0),
    (43144, 16.0, 0.0, 0.0),
    (43509, 17.0, 0.0, 0.0),
    (43874, 18.0, 0.0, 0.0),
    (44239, 19.0, 0.0, 0.0),
    (44786, 20.0, 0.0, 0.0),
    (45151, 21.0, 0.0, 0.0),
    (45516, 22.0, 0.0, 0.0),
    (46247, 23.0, 0.0, 0.0),
    (47161, 24.0, 0.0, 0.0),
    (47892, 25.0, 0.0, 0.0),
    (48257, 26.0, 0.0, 0.0),
    (48804, 27.0, 0.0, 0.0),
    (49169, 28.0, 0.0, 0.0),
    (49534, 29.0, 0.0, 0.0),
    (50083, 30.0, 0.0, 0.0),
    (50630, 31.0, 0.0, 0.0),
    (51179, 32.0, 0.0, 0.0),
    (53736, 33.0, 0.0, 0.0),
    (54832, 34.0, 0.0, 0.0),
    (56109, 35.0, 0.0, 0.0),
    (57204, 36.0, 0.0, 0.0),
    (57754, 37.0, 0.0, 0.0),
];

pub fn tai_utc(mjd: i64, fd: f64) -> Option<f64> {
    let mut r = None;
    for &(from, off, mref, rate) in TAI_UTC {
        if mjd >= from {
            r = Some(off + (mjd as f64 - mref + fd) * rate);
        }
    }
    r
}

// ------------------------------------------------------------ 3x3 algebra

pub type V = [f64; 3];
pub type M = [[f64; 3]; 3];

pub const ID: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];

pub fn mul(a: &M, b: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]))
}
pub fn mulv(a: &M, v: &V) -> V {
    std::array::from_fn(|i| a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2])
}
pub fn tr(a: &M) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
pub fn det(a: &M) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
/// Frame rotations R1, R2, R3 (axis 0, 1, 2) of the IERS Conventions.
pub fn rot(axis: usize, t: f64) -> M {
    let (s, c) = t.sin_cos();
    match axis {
        0 => [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]],
        1 => [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]],
        _ => [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]],
    }
}
pub fn mdiff(a: &M, b: &M) -> f64 {
    let mut e: f64 = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            let d = (a[i][j] - b[i][j]).abs();
            if !(d <= e) {
                e = d
            }
            if d.is_nan() {
                return f64::INFINITY;
            }
        }
    }
    e
}
pub fn vdiff(a: &V, b: &V) -> f64 {
    let mut e: f64 = 0.0;
    for i in 0..3 {
        let d = (a[i] - b[i]).abs();
        if d.is_nan() {
            return f64::INFINITY;
        }
        e = e.max(d)
    }
    e
}
pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: &V) -> f64 {
    dot(a, a).sqrt()
}
pub fn vangle(a: &V, b: &V) -> f64 {
    let (na, nb) = (norm(a), norm(b));
    let a: V = a.map(|x| x / na);
    let b: V = b.map(|x| x / nb);
    norm(&cross(&a, &b)).atan2(dot(&a, &b))
}
/// Deviation from a proper rotation.
pub fn not_rotation(a: &M) -> f64 {
    let e = mdiff(&mul(a, &tr(a)), &ID);
    let d = (det(a) - 1.0).abs();
    if d.is_nan() {
        f64::INFINITY
    } else {
        e.max(d)
    }
}
/// a-b reduced to [-pi,pi].
pub fn adiff(a: f64, b: f64) -> f64 {
    let d = (a - b) % TAU;
    if d > PI {
        d - TAU
    } else if d < -PI {
        d + TAU
    } else {
        d
    }
}

// ------------------------------------------- precession, nutation, CIO (2000)

/// Julian centuries of a two-part date, from the exact sum.
pub fn cent(d1: f64, d2: f64) -> f64 {
    days_j2000(d1, d2) / 36525.0
}

struct NutRow {
    n: [f64; 5],
    c: [f64; 6],
}

fn nut_table() -> &'static [NutRow] {
    static T: OnceLock<Vec<NutRow>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../ref/nut00b.txt")
            .lines()
            .map(|l| {
                let v: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
                NutRow { n: std::array::from_fn(|i| v[i]), c: std::array::from_fn(|i| v[5 + i]) }
            })
            .collect()
    })
}

fn turn(x: f64) -> f64 {
    x.rem_euclid(1296000.0) * AS
}

/// IAU 2000B nutation in longitude and obliquity [rad].
pub fn nutation(t: f64) -> (f64, f64) {
    let arg = [
        turn(485868.249036 + 1717915923.2178 * t),
        turn(1287104.79305 + 129596581.0481 * t),
        turn(335779.526232 + 1739527262.8478 * t),
        turn(1072260.70369 + 1602961601.2090 * t),
        turn(450160.398036 - 6962890.5431 * t),
    ];
    let (mut dp, mut de) = (0.0, 0.0);
    for r in nut_table() {
        let a: f64 = (0..5).map(|k| r.n[k] * arg[k]).sum();
        let (s, c) = a.sin_cos();
        dp += (r.c[0] + r.c[1] * t) * s + r.c[2] * c;
        de += (r.c[3] + r.c[4] * t) * c + r.c[5] * s;
    }
    (dp * 1e-7 * AS - 0.135e-3 * AS, de * 1e-7 * AS + 0.388e-3 * AS)
}

pub fn precession_rate(t: f64) -> (f64, f64) {
    (-0.29965 * AS * t, -0.02524 * AS * t)
}

pub fn mean_obliquity(t: f64) -> f64 {
    (84381.448 - 46.8150 * t - 0.00059 * t * t + 0.001813 * t * t * t) * AS
}

pub const EPS0: f64 = 84381.448 * AS;

pub fn frame_bias() -> (f64, f64, f64) {
    (-0.041775 * AS, -0.0068192 * AS, -0.0146 * AS)
}

pub fn bias_precession(t: f64) -> (M, M, M) {
    let (dpb, deb, dra) = frame_bias();
    let (dpr, der) = precession_rate(t);
    let (t2, t3) = (t * t, t * t * t);
    let psi = (5038.7784 * t - 1.07259 * t2 - 0.001147 * t3) * AS + dpr;
    let om = EPS0 + (0.05127 * t2 - 0.007726 * t3) * AS + der;
    let chi = (10.5526 * t - 2.38064 * t2 - 0.001125 * t3) * AS;
    let rb = mul(&rot(0, -deb), &mul(&rot(1, dpb * EPS0.sin()), &rot(2, dra)));
    let rp = mul(&rot(2, chi), &mul(&rot(0, -om), &mul(&rot(2, -psi), &rot(0, EPS0))));
    (rb, rp, mul(&rp, &rb))
}

pub fn nutation_matrix(epsa: f64, dpsi: f64, deps: f64) -> M {
    mul(&rot(0, -(epsa + deps)), &mul(&rot(2, -dpsi), &rot(0, epsa)))
}

/// Bias-precession-nutation for given nutation angles.
pub fn bpn_with(t: f64, dpsi: f64, deps: f64) -> M {
    let (_, der) = precession_rate(t);
    let (_, _, rbp) = bias_precession(t);
    mul(&nutation_matrix(mean_obliquity(t) + der, dpsi, deps), &rbp)
}

pub fn bpn(t: f64) -> M {
    let (a, b) = nutation(t);
    bpn_with(t, a, b)
}

/// l, l', F, D, Om, L_Ve, L_E, p_A (IERS 2003).
pub fn fund_args(t: f64) -> [f64; 8] {
    let p = |c: [f64; 5]| turn(c[0] + (c[1] * t) % 1296000.0 + c[2] * t * t + c[3] * t * t * t + c[4] * t * t * t * t);
    [
        p([485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470]),
        p([1287104.793048, 129596581.0481, -0.5532, 0.000136, -0.00001149]),
        p([335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417]),
        p([1072260.703692, 1602961601.2090, -6.3706, 0.006593, -0.00003169]),
        p([450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939]),
        (3.176146697 + 1021.3285546211 * t).rem_euclid(TAU),
        (1.753470314 + 628.3075849991 * t).rem_euclid(TAU),
        0.024381750 * t + 0.00000538691 * t * t,
    ]
}

struct SRow {
    k: usize,
    n: [f64; 8],
    s: f64,
    c: f64,
}

fn s_table() -> &'static [SRow] {
    static T: OnceLock<Vec<SRow>> = OnceLock::new();
    T.get_or_init(|| {
        include_str!("../../ref/s00.txt")
            .lines()
            .map(|l| {
                let v: Vec<f64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
                SRow { k: v[0] as usize, n: std::array::from_fn(|i| v[1 + i]), s: v[9], c: v[10] }
            })
            .collect()
    })
}

/// CIO locator s + XY/2, then s.
pub fn cio_s(t: f64, x: f64, y: f64) -> f64 {
    let fa = fund_args(t);
    let mut p = [94e-6, 3808.35e-6, -119.94e-6, -72574.09e-6, 27.70e-6, 15.61e-6];
    for r in s_table() {
        let a: f64 = (0..8).map(|i| r.n[i] * fa[i]).sum();
        p[r.k] += r.s * a.sin() + r.c * a.cos();
    }
    let mut s = 0.0;
    let mut tk = 1.0;
    for q in p {
        s += q * tk;
        tk *= t;
    }
    s * AS - x * y / 2.0
}

/// Celestial-to-intermediate matrix from the CIP coordinates and s, in the
/// rational form of the IERS Conventions (no angles E and d involved).
pub fn c2i_xys(x: f64, y: f64, s: f64) -> M {
    let z = (1.0 - x * x - y * y).sqrt();
    let a = 1.0 / (1.0 + z);
    let q = [[1.0 - a * x * x, -a * x * y, -x], [-a * x * y, 1.0 - a * y * y, -y], [x, y, 1.0 - a * (x * x + y * y)]];
    mul(&rot(2, -s), &q)
}

pub fn c2i(t: f64) -> M {
    let b = bpn(t);
    let (x, y) = (b[2][0], b[2][1]);
    c2i_xys(x, y, cio_s(t, x, y))
}

/// Earth rotation angle from the exact sum of the parts.
pub fn era(u1: f64, u2: f64) -> f64 {
    let d = fx(u1) + fx(u2) - fx(J2000);
    let one = 1i128 << FX;
    let f = fx_to_f64(d.rem_euclid(one)); // fraction of day since noon
    let t = fx_to_f64(d);
    (TAU * (f + 0.7790572732640 + (0.00273781191135448 * t) % 1.0)).rem_euclid(TAU)
}

pub fn polar_motion(xp: f64, yp: f64, sp: f64) -> M {
    mul(&rot(0, -yp), &mul(&rot(1, -xp), &rot(2, sp)))
}

pub fn c2t(tt: (f64, f64), ut1: (f64, f64), xp: f64, yp: f64) -> M {
    mul(&polar_motion(xp, yp, 0.0), &mul(&rot(2, era(ut1.0, ut1.1)), &c2i(cent(tt.0, tt.1))))
}

// ----------------------------------------------------------------- EPV00

pub struct Epv {
    /// [series e0,e1,e2,s0,s1,s2][axis] -> (a,b,c)
    t: [[Vec<(f64, f64, f64)>; 3]; 6],
}

pub fn epv_table() -> &'static Epv {
    static T: OnceLock<Epv> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: [[Vec<(f64, f64, f64)>; 3]; 6] = Default::default();
        let mut cur = (0, 0);
        for l in include_str!("../../ref/epv00.txt").lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w[0].starts_with('E') || w[0].starts_with('S') {
                let b = if w[0].starts_with('E') { 0 } else { 3 };
                cur = (b + w[0][1..].parse::<usize>().unwrap(), w[1].parse().unwrap());
            } else {
                t[cur.0][cur.1].push((w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap()));
            }
        }
        Epv { t }
    })
}

#[derive(Clone, Copy)]
pub struct EarthState {
    pub hp: V,
    pub hv: V,
    pub bp: V,
    pub bv: V,
}

const EPV_ROT: M = [
    [1.0, 0.000000211284, -0.000000091603],
    [-0.000000230286, 0.917482137087, -0.397776982902],
    [0.0, 0.397776982902, 0.917482137087],
];

/// d: days from J2000 (TDB).
pub fn epv(d: f64) -> EarthState {
    let t = d / 365.25;
    let tab = epv_table();
    // position and derivative of one series at power 0..2 of t
    let sum = |base: usize, k: usize| {
        let (mut p, mut v) = (0.0, 0.0);
        for pw in 0..3 {
            let (mut a0, mut a1) = (0.0, 0.0);
            for &(a, b, c) in &tab.t[base + pw][k] {
                let (s, co) = (b + c * t).sin_cos();
                a0 += a * co;
                a1 -= a * c * s;
            }
            match pw {
                0 => {
                    p += a0;
                    v += a1
                }
                1 => {
                    p += a0 * t;
                    v += a1 * t + a0
                }
                _ => {
                    p += a0 * t * t;
                    v += a1 * t * t + 2.0 * a0 * t
                }
            }
        }
        (p, v / 365.25)
    };
    let (mut hp, mut hv, mut bp, mut bv) = ([0.0; 3], [0.0; 3], [0.0; 3], [0.0; 3]);
    for k in 0..3 {
        let (p, v) = sum(0, k);
        let (q, w) = sum(3, k);
        hp[k] = p;
        hv[k] = v;
        bp[k] = p + q;
        bv[k] = v + w;
    }
    EarthState { hp: mulv(&EPV_ROT, &hp), hv: mulv(&EPV_ROT, &hv), bp: mulv(&EPV_ROT, &bp), bv: mulv(&EPV_ROT, &bv) }
}

// ------------------------------------------- low-precision Sun (Meeus ch. 25)

/// Geometric Sun: unit vector in the mean equator and equinox of date, and
/// the distance in AU; about 0.01 degree over a few centuries around 2000.
pub fn meeus_sun(t: f64) -> (V, f64) {
    let l0 = 280.46646 + 36000.76983 * t + 0.0003032 * t * t;
    let m = (357.52911 + 35999.05029 * t - 0.0001537 * t * t) * DEG;
    let e = 0.016708634 - 0.000042037 * t - 0.0000001267 * t * t;
    let c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * m.sin() + (0.019993 - 0.000101 * t) * (2.0 * m).sin() + 0.000289 * (3.0 * m).sin();
    let lam = (l0 + c) * DEG;
    let nu = m + c * DEG;
    let r = 1.000001018 * (1.0 - e * e) / (1.0 + e * nu.cos());
    let eps = (23.439291111 - 0.0130042 * t) * DEG;
    ([lam.cos(), eps.cos() * lam.sin(), eps.sin() * lam.sin()], r)
}

/// Greenwich mean sidereal time (IAU 1982, Meeus ch. 12), radians; d in UT1 days from J2000.
pub fn gmst(d: f64) -> f64 {
    let t = d / 36525.0;
    ((280.46061837 + 360.98564736629 * d + 0.000387933 * t * t) * DEG).rem_euclid(TAU)
}

// --------------------------------------------------------------- ellipsoid

pub fn wgs84() -> (f64, f64) {
    (6378137.0, 1.0 / 298.257223563)
}

pub fn geodetic_to_xyz(a: f64, f: f64, lon: f64, lat: f64, h: f64) -> V {
    let e2 = f * (2.0 - f);
    let n = a / (1.0 - e2 * lat.sin() * lat.sin()).sqrt();
    [(n + h) * lat.cos() * lon.cos(), (n + h) * lat.cos() * lon.sin(), (n * (1.0 - e2) + h) * lat.sin()]
}

pub fn normal(lon: f64, lat: f64) -> V {
    [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()]
}

// ------------------------------------------------------------ SOFA vectors

pub fn vectors(name: &str) -> Vec<Vec<f64>> {
    include_str!("../../ref/vectors.txt")
        .lines()
        .filter_map(|l| l.strip_prefix(name)?.strip_prefix(' '))
        .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
        .collect()
}

pub fn mat(v: &[f64]) -> M {
    std::array::from_fn(|i| std::array::from_fn(|j| v[3 * i + j]))
}
