//! C12-C16: ellipsoid, geodetic coordinates and their text form.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use tofas::common::Vec3;
use tofas::ellipsoid::{Ellipsoid, EllipsoidConverter, EllipsoidError, Geodetic, Geodetic360, WGS84};

/// (a, f); the first is the library's own WGS84 constant.
fn ellipsoids() -> Vec<(f64, f64)> {
    vec![
        wgs84(),
        (6378137.0, 1.0 / 298.257222101),
        (6378135.0, 1.0 / 298.26),
        (6371000.0, 0.0),
        (1.0, 1.0 / 298.257223563),
        (6378388.0, 1.0 / 297.0),
        (3396190.0, 0.00589),
        (60268000.0, 0.0979624),
        (1e-3, 0.003),
        (149597870700.0, 0.05),
        (25559000.0, 0.0229),
    ]
}

fn lats(thorough: bool) -> Vec<f64> {
    let n: i64 = if thorough { 7200 } else { 360 };
    let mut v: Vec<f64> = (-n..=n).map(|k| k as f64 * PI / (2 * n) as f64).collect();
    for e in [1e-1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9, 1e-12, 1e-14, 1e-15, 1e-16, 5e-17, 1e-17, 1e-30] {
        for b in [-PI / 2.0, -PI / 4.0, 0.0, PI / 4.0, PI / 2.0] {
            v.extend([b + e, b - e]);
        }
    }
    v.extend([0.0, -0.0, PI / 2.0, -PI / 2.0]);
    v.extend(dict::around(-PI / 2.0, PI / 2.0, &[&|x| x, &|x| x * DEG]).into_iter().step_by(3));
    v.retain(|x| x.abs() <= PI / 2.0);
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}

fn lons() -> Vec<f64> {
    let mut v: Vec<f64> = (-36..=36).map(|k| k as f64 * PI / 36.0).collect();
    for e in [1e-3, 1e-9, 1e-15] {
        for k in -2..=2 {
            let b = k as f64 * PI / 2.0;
            v.extend([b + e, b - e]);
        }
    }
    v.retain(|x| x.abs() <= PI);
    v
}

/// Heights as fractions of the equatorial radius.
const HREL: [f64; 17] = [0.0, 1e-10, -1e-10, 1e-6, -1e-6, 1.4e-3, -1.7e-3, 0.01, -0.01, 0.0627, 0.1, 0.5, 1.0, 2.0, 3.166, 5.6, 6.5];

/// Bound on the distance between a point and its image after the round
/// trip, relative to its distance from the centre.  The inverse is one
/// step of Halley's method (Fukushima 2006): exact to rounding on the surface
/// and slowly worse away from it; the constants are four times the measured
/// maxima over the finest grid.
fn rt_tol(f: f64, h: f64) -> f64 {
    let e2 = f * (2.0 - f);
    let h = h.abs();
    1.5e-15 + 4.0 * e2.powi(4) * (0.25 * h * h * h).min(0.015)
}

/// The published inverse (Fukushima 2006, one step of Halley's method), in
/// the meridian plane: latitude and height of the point at distance p from
/// the axis and z from the equator.
fn fukushima(a: f64, f: f64, p: f64, z: f64) -> (f64, f64) {
    let e2 = f * (2.0 - f);
    let ec2 = (1.0 - f) * (1.0 - f);
    let ec = 1.0 - f;
    let (pn, s0) = (p / a, z.abs() / a);
    let c0 = ec * pn;
    let a0 = c0.hypot(s0);
    let a03 = a0 * a0 * a0;
    let d0 = ec * s0 * a03 + e2 * s0.powi(3);
    let f0 = pn * a03 - e2 * c0.powi(3);
    let b0 = 1.5 * e2 * e2 * s0 * s0 * c0 * c0 * pn * (a0 - ec);
    let (s1, cc) = (d0 * f0 - b0 * s0, ec * (f0 * f0 - b0 * c0));
    let h = (p * cc + z.abs() * s1 - a * (ec2 * s1 * s1 + cc * cc).sqrt()) / s1.hypot(cc);
    ((s1 / cc).atan() * z.signum(), h)
}

/// Geodetic to geocentric against the definition, and back.
fn there_and_back(a: f64, f: f64, k: &EllipsoidConverter, lon: f64, lat: f64, h: f64, c: &mut Ctx) -> Res {
    let key = format_args!("{a} {f} {lat:?} {lon:?} {h}");
    let want = geodetic_to_xyz(a, f, lon, lat, h);
    let got = match k.geodetic_to_geocentric(&Geodetic { elong: lon, phi: lat, height: h }) {
        Ok(x) => x,
        Err(e) => bail!(key, "rejected: {e}"),
    };
    let sc = a + h.abs();
    ensure!(vdiff(&got, &want) <= 2e-15 * sc, key, "a={a} f={f} lon={lon:?} lat={lat:?} h={h}: {got:?}, expected {want:?}");
    let g = k.geocentric_to_geodetic(&want);
    c.state();
    c.transitions += 2;
    ensure!(g.phi.abs() <= PI / 2.0 + 1e-15 && g.elong.abs() <= PI + 1e-15 && g.height.is_finite(), key, "a={a} f={f} {want:?} -> {g:?}: out of range");
    let t = rt_tol(f, h / a);
    let back = geodetic_to_xyz(a, f, g.elong, g.phi, g.height);
    ensure!(vdiff(&back, &want) <= t * sc, key, "a={a} f={f} lon={lon:?} lat={lat:?} h={h}: {want:?} -> {g:?}, which is {back:?}: off by {:e} of the radius (tolerance {t:e})", vdiff(&back, &want) / sc);
    ensure!((g.phi - lat).abs() <= 2.0 * t + 5e-16, key, "a={a} f={f} lon={lon:?} lat={lat:?} h={h} -> {g:?}: latitude off by {:e}", g.phi - lat);
    ensure!((g.height - h).abs() <= (t + 1e-15) * sc, key, "a={a} f={f} lon={lon:?} lat={lat:?} h={h} -> {g:?}: height off by {:e}", g.height - h);
    if lat.abs() < PI / 2.0 - 1e-6 {
        ensure!(adiff(g.elong, lon % TAU).abs() <= 1e-15 * (1.0 + lon.abs()) + 1e-15 / lat.cos(), key, "a={a} f={f} lon={lon:?} lat={lat:?} h={h} -> {g:?}");
    }
    c.outcome(g.phi + g.height);
    Ok(())
}

/// Geocentric to geodetic, put back through the definition.
fn back_and_there(a: f64, f: f64, k: &EllipsoidConverter, p: Vec3, c: &mut Ctx) -> Res {
    let r = norm(&p);
    if r < 0.98 * a * (1.0 - f) {
        return Ok(());
    }
    let z = p[2];
    let g = k.geocentric_to_geodetic(&p);
    c.state();
    c.step();
    let key = format_args!("{a} {f} {p:?}");
    ensure!(g.phi.abs() <= PI / 2.0 + 1e-15 && g.elong.abs() <= PI + 1e-15 && g.height.is_finite(), key, "a={a} f={f} {p:?} -> {g:?}: out of range");
    let back = geodetic_to_xyz(a, f, g.elong, g.phi, g.height);
    let t = rt_tol(f, g.height / a);
    ensure!(vdiff(&back, &p) <= t * r.max(a), key, "a={a} f={f} {p:?} -> {g:?}, which is {back:?}: off by {:e} (tolerance {t:e})", vdiff(&back, &p) / r.max(a));
    ensure!(z == 0.0 || (g.phi > 0.0) == (z > 0.0) || z.abs() < 1e-200, key, "a={a} f={f} {p:?} -> {g:?}: wrong hemisphere");
    c.outcome(g.phi);
    Ok(())
}

pub fn c12(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let els = ellipsoids();
    let ne = els.len();
    let la = lats(thorough);
    let lo = lons();
    let nla = la.len();
    v.push(family("grid", format!("{ne} ellipsoids x {nla} latitudes x {} longitudes x {} heights (-0.01 to 6.5 radii): to geocentric against the definition, and back", lo.len(), HREL.len()), ne * nla, move |i, c| {
        let (a, f) = els[i / nla];
        let el = if i / nla == 0 { WGS84 } else { Ellipsoid { a, f } };
        let k = EllipsoidConverter::new(&el);
        let Ok(k) = k else { bail!(format!("new {a} {f}"), "ellipsoid {a},{f} rejected") };
        let lat = la[i % nla];
        for &lon in &lo {
            for hr in HREL {
                let h = hr * a;
                there_and_back(a, f, &k, lon, lat, h, c)?;
            }
        }
        c.note(|| format!("a={a} f={f} lat={lat:?}, all longitudes and heights"));
        c.traces += 1;
        Ok(())
    }));
    // the geocentric side: lattice with signed zeros and near-axis points
    let els = ellipsoids();
    let mut ax: Vec<f64> = vec![0.0, -0.0];
    for x in [1e-300, 1e-20, 1e-17, 0.99e-16, 1.0e-16, 1.01e-16, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 0.5, 0.7, 0.9, 0.97, 0.99, 0.996, 1.0, 1.001, 1.1, 2.0, 7.0] {
        ax.extend([x, -x]);
    }
    if thorough {
        for k in 1..20 {
            ax.extend([k as f64 / 13.0, -k as f64 / 13.0]);
        }
    }
    let nax = ax.len();
    v.push(family("geocentric_lattice", format!("{ne} ellipsoids x {nax}^3 geocentric points (signed zeros, the axis threshold, poles, equator) lying at least 0.98 polar radii from the centre: the result, put back through the definition, is the point"), ne * nax, move |i, c| {
        let (a, f) = els[i / nax];
        let k = EllipsoidConverter::new(&Ellipsoid { a, f }).ok().unwrap();
        let x = ax[i % nax] * a;
        for &y in &ax {
            for &z in &ax {
                back_and_there(a, f, &k, [x, y * a, z * a], c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    // numbers of the source, in metres, radians and degrees
    let els = ellipsoids();
    let la = lats(thorough);
    let nla = la.len();
    let lo = dict::numbers(-3.0 * PI, 3.0 * PI, &[&|x| x, &|x| x * DEG]);
    let nlo = lo.len();
    v.push(family("longitudes", format!("{ne} ellipsoids x {nla} latitudes x {nlo} longitudes (source literals in radians and degrees, powers of ten, neighbours; beyond a turn), height rotating"), ne * nla, move |i, c| {
        let (a, f) = els[i / nla];
        let el = if i / nla == 0 { WGS84 } else { Ellipsoid { a, f } };
        let k = EllipsoidConverter::new(&el).ok().unwrap();
        for (j, &lon) in lo.iter().enumerate() {
            there_and_back(a, f, &k, lon, la[i % nla], HREL[(i + j) % HREL.len()] * a, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    let els = ellipsoids();
    let la = lats(thorough);
    let hs: Vec<f64> = dict::numbers(-2e9, 2e12, &[&|x| x, &|x| 1e3 * x]);
    let nh = hs.len();
    v.push(family("heights", format!("{ne} ellipsoids x {nla} latitudes x those of {nh} heights (source literals in metres and kilometres, powers of ten, neighbours) from -0.01 to 10 radii, longitude rotating"), ne * nla, move |i, c| {
        let (a, f) = els[i / nla];
        let k = EllipsoidConverter::new(&Ellipsoid { a, f }).ok().unwrap();
        for (j, &h) in hs.iter().enumerate() {
            if h < -0.01 * a || h > 10.0 * a {
                continue;
            }
            there_and_back(a, f, &k, ((i * 7 + j) % 101) as f64 * 0.0625 - 3.125, la[i % nla], h, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    let els = ellipsoids();
    let ds: Vec<f64> = dict::numbers(0.0, 6.5e7, &[&|x| x, &|x| 1e3 * x, &|x| 6378137.0 * x, &|x| 6378137.0 + x]);
    let nd = ds.len();
    v.push(family("geocentric_literals", format!("Earth ellipsoids x {nd}^2 pairs of distances from the axis and from the equator (source literals in metres, kilometres, radii and metres above the equator, powers of ten, neighbours) on both sides, direction rotating"), nd, move |i, c| {
        for ke in [0usize, 1, 3, 5] {
            let (a, f) = els[ke];
            let el = if ke == 0 { WGS84 } else { Ellipsoid { a, f } };
            let k = EllipsoidConverter::new(&el).ok().unwrap();
            for (j, &z) in ds.iter().enumerate() {
                let r = ds[i];
                let (sx, cx) = match (i + j) % 6 {
                    0 => (0.0, 1.0),
                    1 => (1.0, 0.0),
                    2 => (0.0, -1.0),
                    3 => (-1.0, 0.0),
                    4 => (0.6, -0.8),
                    _ => (-0.28, 0.96),
                };
                back_and_there(a, f, &k, [r * cx, r * sx, if (i / 6 + j) % 2 == 0 { z } else { -z }], c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C13

pub fn c13(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let nan = f64::NAN;
    let inf = f64::INFINITY;
    let mut av = vec![nan, -nan, -inf, -1e300, -6378137.0, -1.0, -1e-300, -5e-324, -0.0, 0.0, 1e-60, 1e-9, 1e-3, 1.0, 6371000.0, 6378137.0, 1e12, 1e60];
    av.extend(dict::around(-1e12, 1e12, &[&|x| x]).into_iter().filter(|x| x.abs() > 1e-60 || *x == 0.0));
    av.push(inf);
    // every binary magnitude with its neighbours, both signs
    for e in -1074..=1023i32 {
        let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
        for x in [p.next_down(), p, p.next_up()] {
            av.extend([x, -x]);
        }
    }
    av.sort_by(f64::total_cmp);
    av.dedup_by(|a, b| a.to_bits() == b.to_bits());
    let mut fv = vec![nan, -nan, inf, -inf, -1e300, -1.0, -0.1, -1.0 / 298.257, -1e-9, -1e-300, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 1e-9, 1.0 / 298.257223563, 0.1, 0.3, 0.5, 0.9, 0.99, 1.0, 1.0f64.next_up(), 1.0 + 1e-9, 1.5, 2.0, 2.5, 298.257223563, 1e300];
    fv.extend(dict::around(-1e6, 1e6, &[&|x| x]));
    let fs = if thorough { 4 } else { 64 };
    for e in (-1074..=1023i32).step_by(fs) {
        let p = if e < -1022 { f64::from_bits(1u64 << (e + 1074)) } else { f64::from_bits(((e + 1023) as u64) << 52) };
        fv.extend([p, -p]);
    }
    fv.extend((0..if thorough { 9900 } else { 990 }).map(|k| k as f64 / if thorough { 1e4 } else { 1e3 }));
    fv.retain(|f| !(*f > 0.99 && *f < 1.0));
    fv.sort_by(f64::total_cmp);
    fv.dedup_by(|a, b| a.to_bits() == b.to_bits());
    let (na, nf) = (av.len(), fv.len());
    v.push(family("parameters", format!("{na} radii x {nf} flattenings (NaN, infinities, signed zeros, every binary magnitude of the radius and its neighbours, every source literal and its neighbours, a grid of flattenings): accepted exactly when the radius is positive and the flattening in [0,1)"), na, move |i, c| {
        let a = av[i];
        for &f in &fv {
            let key = format_args!("{a:?} {f:?}");
            let r = EllipsoidConverter::new(&Ellipsoid { a, f });
            c.state();
            c.step();
            let (ga, gf) = (a > 0.0, f >= 0.0 && f < 1.0);
            match (r, ga, gf) {
                (Ok(k), true, true) => {
                    let e = k.ellipsoid();
                    ensure!(e.a.to_bits() == a.to_bits() && e.f == f, key, "converter for a={a:?} f={f:?} reports {e:?}");
                    // extreme but valid latitudes are accepted too
                    let ok = a > 1e-60 && a < 1e290;
                    for lat in [-PI / 2.0, 0.0, PI / 2.0].into_iter().filter(|_| ok) {
                        let g = k.geodetic_to_geocentric(&Geodetic { elong: 0.0, phi: lat, height: 0.0 });
                        let Ok(p) = g else { bail!(key, "a={a:?} f={f:?}: latitude {lat} rejected") };
                        let w = geodetic_to_xyz(a, f, 0.0, lat, 0.0);
                        let tol = 1e-13 / (1.0 - f) / (1.0 - f);
                        ensure!(vdiff(&p, &w) <= tol * a, key, "a={a:?} f={f:?} lat={lat}: {p:?}, expected {w:?}");
                        c.step();
                    }
                    c.outcome(f);
                }
                (Ok(_), ..) => bail!(key, "a={a:?} f={f:?} accepted"),
                (Err(e), true, true) => bail!(key, "a={a:?} f={f:?} rejected: {e}"),
                (Err(EllipsoidError::InvalidFlattening), _, false) | (Err(EllipsoidError::InvalidRadius), false, _) => {}
                (Err(e), ..) => bail!(key, "a={a:?} f={f:?} rejected for the wrong reason: {e}"),
            }
        }
        c.note(|| format!("radius {a:?} with all {nf} flattenings"));
        c.traces += 1;
        Ok(())
    }));
    // the two conversions obey the parameters given
    let (nl, df) = if thorough { (180i64, 0.0001) } else { (72, 0.00025) };
    let nfl = (0.0985 / df) as usize;
    v.push(family("governed", format!("400 radii (1e-3 to 1e11, geometric) x {nfl} flattenings (0 to 0.0985) x {} latitudes (to 1e-14 from the poles) x 6 heights: the conversions are those of the ellipsoid given", 2 * nl + 13), 400 * nfl, move |i, c| {
        let a = 1e-3 * 10f64.powf((i / nfl) as f64 * 14.0 / 399.0);
        let f = (i % nfl) as f64 * df;
        let Ok(k) = EllipsoidConverter::new(&Ellipsoid { a, f }) else { bail!(format!("{a} {f}"), "a={a} f={f} rejected") };
        for l in -nl - 6..=nl + 6 {
            for hr in [0.0, -0.005, 1e-5, 0.02, 0.3, 1.5] {
                let (lon, mut lat, h) = (l as f64 * 2.79 / nl as f64, l as f64 / nl as f64 * (PI / 2.0), hr * a);
                if l.abs() > nl {
                    // 1e-4 to 1e-14 from a pole
                    lat = (PI / 2.0 - 10f64.powi(-2 - 2 * (l.abs() - nl) as i32)).copysign(lat);
                }
                let w = geodetic_to_xyz(a, f, lon, lat, h);
                let Ok(p) = k.geodetic_to_geocentric(&Geodetic { elong: lon, phi: lat, height: h }) else { bail!(format!("{a} {f} {l}"), "rejected") };
                c.state();
                c.transitions += 2;
                ensure!(vdiff(&p, &w) <= 3e-15 * (a + h), format!("{a} {f} {l}"), "a={a} f={f} lat={lat} h={h}: {p:?}, expected {w:?}");
                let g = k.geocentric_to_geodetic(&w);
                let b = geodetic_to_xyz(a, f, g.elong, g.phi, g.height);
                let t = rt_tol(f, hr);
                ensure!(vdiff(&b, &w) <= t * (a + h), format!("{a} {f} {l}"), "a={a} f={f} {w:?} -> {g:?}: off by {:e} (tolerance {t:e})", vdiff(&b, &w) / a);
            }
        }
        Ok(())
    }));
    // forward conversion for every accepted flattening, both ways for the flat range of real bodies
    let av: Vec<f64> = dict::numbers(1e-6, 1e12, &[&|x| x, &|x| 1e3 * x]);
    let fv: Vec<f64> = dict::numbers(0.0, 0.99, &[&|x| x, &|x| 1.0 / x]);
    let (na, nf) = (av.len(), fv.len());
    v.push(family("governed_literals", format!("{na} radii x {nf} flattenings below 0.99 (source literals and their reciprocals, powers of ten, neighbours) x 2 positions: the conversion is that of the ellipsoid given, and for flattenings to 0.1 so is the inverse"), na, move |i, c| {
        let a = av[i];
        for (j, &f) in fv.iter().enumerate() {
            let Ok(k) = EllipsoidConverter::new(&Ellipsoid { a, f }) else { bail!(format!("{a} {f}"), "a={a} f={f} rejected") };
            for (lat, hr) in [(((i * 13 + j * 5) % 179) as f64 / 178.0 * PI - PI / 2.0, 0.0), (((i * 5 + j * 11) % 61) as f64 * 0.05 - 1.5, ((i + j) % 7) as f64 * 0.05)] {
                let (lon, h) = (((i + 3 * j) % 97) as f64 * 0.0645 - 3.1, hr * a);
                if f <= 0.1 {
                    there_and_back(a, f, &k, lon, lat, h, c)?;
                } else {
                    let w = geodetic_to_xyz(a, f, lon, lat, h);
                    let Ok(p) = k.geodetic_to_geocentric(&Geodetic { elong: lon, phi: lat, height: h }) else { bail!(format!("{a} {f} {lat}"), "rejected") };
                    c.state();
                    c.step();
                    ensure!(vdiff(&p, &w) <= 3e-15 / (1.0 - f) * (a + h), format!("{a} {f} {lat}"), "a={a} f={f} lat={lat} h={h}: {p:?}, expected {w:?}");
                }
            }
        }
        Ok(())
    }));
    // strongly flattened bodies: the inverse is an approximation whose error
    // grows; it may not be further off than the published one
    let (nk, sl) = if thorough { (1780, 0.2) } else { (178, 0.5) };
    let mut fs: Vec<f64> = (0..=nk).map(|k| 0.1 + k as f64 * (0.89 / nk as f64)).collect();
    let nlat = (89.9 / sl) as i64;
    fs.extend(dict::numbers(0.1, 0.99, &[&|x| x, &|x| 1.0 / x]));
    let nf = fs.len();
    v.push(family("strongly_flattened", format!("{nf} flattenings 0.1 to 0.99 (grid, source literals and reciprocals, neighbours) x 3 radii x {} latitudes x 5 heights to 3 radii: the inverse is at least as near as the published one (Fukushima 2006)", 2 * nlat + 1), nf, move |i, c| {
        let f = fs[i];
        for a in [1.0, 6378137.0, 7.1e11] {
            let Ok(k) = EllipsoidConverter::new(&Ellipsoid { a, f }) else { bail!(format!("{a} {f}"), "a={a} f={f} rejected") };
            for l in -nlat..=nlat {
                for hr in [0.0, 1e-4, 0.05, 0.7, 3.0] {
                    let (lon, lat, h) = (l as f64 * 0.007, l as f64 * sl * PI / 180.0, hr * a);
                    let key = format_args!("{a} {f} {l} {hr}");
                    let w = geodetic_to_xyz(a, f, lon, lat, h);
                    let g = k.geocentric_to_geodetic(&w);
                    let Ok(p) = k.geodetic_to_geocentric(&Geodetic { elong: lon, phi: lat, height: h }) else { bail!(key, "rejected") };
                    c.state();
                    c.transitions += 2;
                    let rnd = 3e-15 / (1.0 - f);
                    ensure!(vdiff(&p, &w) <= rnd * (a + h), key, "a={a} f={f} lat={lat} h={h}: {p:?}, expected {w:?}");
                    let (mp, mh) = fukushima(a, f, w[0].hypot(w[1]), w[2]);
                    let me = vdiff(&geodetic_to_xyz(a, f, lon, mp, mh), &w);
                    let e = vdiff(&geodetic_to_xyz(a, f, g.elong, g.phi, g.height), &w);
                    let tol = 1.2 * me + STRONG_RND / ((1.0 - f) * (1.0 - f)) * (a + h);
                    ensure!(e <= tol, key, "a={a} f={f} lat={lat} h={h}: {w:?} -> {g:?}: off by {:e} radii, the published inverse by {:e}", e / a, me / a);
                    c.outcome(g.phi);
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

/// Rounding of the inverse for a strong flattening, in radii over (1-f)^2.
const STRONG_RND: f64 = 1e-14;

// ------------------------------------------------------------------- C14

/// The zenith against the definition, the outward normal and the move made
/// by raising the point.
fn zenith_at(lon: f64, lat: f64, hs: &[f64], cv: &[(f64, f64, EllipsoidConverter)], c: &mut Ctx) -> Res {
    let key = format_args!("{lat:?} {lon:?}");
    for &h in hs {
        let g = Geodetic { elong: lon, phi: lat, height: h };
        let z = g.zenith();
        c.state();
        c.step();
        let w = normal(lon, lat);
        ensure!(vdiff(&z, &w) <= 1e-15, key, "zenith at lat {lat:?} lon {lon:?} h {h} is {z:?}, expected {w:?}");
        ensure!((norm(&z) - 1.0).abs() <= 1e-15, key, "zenith at lat {lat:?} lon {lon:?} is {z:?}: not a unit vector");
        if h.abs() > 2e6 {
            continue;
        }
        for (a, f, k) in cv {
            let Ok(p) = k.geodetic_to_geocentric(&g) else { bail!(key, "rejected") };
            let Ok(q) = k.geodetic_to_geocentric(&Geodetic { height: h + 1000.0, ..g }) else { bail!(key, "rejected") };
            c.transitions += 2;
            let d: V = std::array::from_fn(|n| (q[n] - p[n]) / 1000.0);
            ensure!(vdiff(&d, &z) <= 1e-11 * (1.0 + a / 6e6), key, "raising the point at lat {lat:?} lon {lon:?} h {h} moves it along {d:?}, zenith is {z:?}");
            if h == 0.0 {
                // gradient of x^2/a^2 + y^2/a^2 + z^2/b^2
                let b = a * (1.0 - f);
                let gr = [p[0] / a / a, p[1] / a / a, p[2] / b / b];
                let nr = norm(&gr);
                let u = gr.map(|x| x / nr);
                ensure!(vdiff(&u, &z) <= 3e-15, key, "the normal at lat {lat:?} lon {lon:?} is {u:?}, zenith is {z:?}");
            }
        }
    }
    c.outcome(lat + lon);
    Ok(())
}

fn some_converters() -> Vec<(f64, f64, EllipsoidConverter)> {
    [0usize, 3, 7].iter().map(|k| ellipsoids()[*k]).map(|(a, f)| (a, f, EllipsoidConverter::new(&Ellipsoid { a, f }).ok().unwrap())).collect()
}

pub fn c14(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let la = lats(thorough);
    let (n, m) = (la.len(), if thorough { 200_000 } else { 10_000 });
    v.push(family("grid", format!("{n} latitudes x {} longitudes (beyond a turn either way) x 5 heights x 3 ellipsoids: unit length, definition, along the outward normal of the ellipsoid, and raising the height moves the point along it", 2 * m + 1), n, move |i, c| {
        let lat = la[i];
        let cv = some_converters();
        for j in -m..=m {
            let lon = j as f64 * 1.5 * TAU / m as f64;
            zenith_at(lon, lat, &[0.0, -5e3, 8848.0, 1e6, 1e9], &cv, c)?;
        }
        c.note(|| format!("latitude {lat:?}"));
        c.traces += 1;
        Ok(())
    }));
    let mut hs: Vec<f64> = (-130..=20).map(|k| k as f64 * 5e4 + 17.25).collect();
    hs.extend((0..60).flat_map(|k| [1.0, -1.0].map(|s| s * 0.37 * 10f64.powf(k as f64 / 5.0))));
    let nh = hs.len();
    let la = lats(thorough);
    v.push(family("heights", format!("{n} latitudes x 24 longitudes x {nh} heights, linearly from the centre to 1000 km above and logarithmically to 2e11 m in both directions, 3 ellipsoids: the same"), n, move |i, c| {
        let cv = some_converters();
        for j in 0..24 {
            zenith_at(j as f64 * 0.55 - 6.4, la[i], &hs, &cv, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    let la = lats(thorough);
    let lo = dict::numbers(-100.0, 100.0, &[&|x| x, &|x| x * DEG]);
    let hs = dict::numbers(-1e12, 1e12, &[&|x| x, &|x| 1e3 * x]);
    let (nlo, nh) = (lo.len(), hs.len());
    v.push(family("literals", format!("{n} latitudes x {nlo} longitudes and {n} latitudes x {nh} heights (source literals in radians and degrees, metres and kilometres, powers of ten, neighbours)"), n, move |i, c| {
        let lat = la[i];
        let cv = some_converters();
        for (j, &lon) in lo.iter().enumerate() {
            zenith_at(lon, lat, &[hs[(i * 31 + j) % nh]], &cv[(i + j) % 3..(i + j) % 3 + 1], c)?;
        }
        for (j, &h) in hs.iter().enumerate() {
            zenith_at(lo[(i * 17 + j) % nlo], lat, &[h], &cv[(i + j) % 3..(i + j) % 3 + 1], c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C15

fn deg_point(lon: f64, lat: f64, h: f64, c: &mut Ctx) -> Res {
    // radians in
    let key = format_args!("{lon:?} {lat:?} {h:?}");
    let g = Geodetic { elong: lon, phi: lat, height: h };
    let d = Geodetic360::from(g);
    let e = Geodetic360::from(&g);
    c.state();
    c.transitions += 2;
    ensure!(d.lon == e.lon && d.lat == e.lat && d.height == e.height, key, "by value and by reference differ: {d:?} {e:?}");
    ensure!(d.lon >= -180.0 && d.lon < 180.0, key, "longitude {lon:?} rad became {:?} degrees", d.lon);
    ensure!(d.lat >= -90.0 && d.lat <= 90.0, key, "latitude {lat:?} rad became {:?} degrees", d.lat);
    ensure!(d.height == h, key, "height {h:?} became {:?}", d.height);
    let ld = lon / DEG;
    let mut r = (d.lon - ld) % 360.0;
    if r > 180.0 {
        r -= 360.0
    }
    if r < -180.0 {
        r += 360.0
    }
    ensure!(r.abs() <= 2e-13 * (1.0 + ld.abs() / 360.0), key, "longitude {lon:?} rad ({ld:?} degrees) became {:?}", d.lon);
    if lat.abs() <= PI / 2.0 {
        ensure!((d.lat - lat / DEG).abs() <= 3e-14, key, "latitude {lat:?} rad became {:?} degrees", d.lat);
        let b = Geodetic::from(d);
        c.step();
        ensure!((b.phi - lat).abs() <= 1e-15 && adiff(b.elong, lon % TAU).abs() <= 4e-15 * (1.0 + lon.abs()) && b.height == h, key, "{g:?} -> {d:?} -> {b:?}");
    }
    c.outcome(d.lon);
    Ok(())
}

pub fn c15(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let la = lats(thorough);
    let n = la.len();
    let mut lo: Vec<f64> = vec![0.0, -0.0];
    let m = if thorough { 100_000 } else { 4000 };
    for k in -m..=m {
        let x = k as f64 * PI / 4.0;
        lo.extend([x, x.next_up(), x.next_up().next_up(), x.next_down(), x.next_down().next_down(), x + 1e-9, x - 1e-9, x + 0.3, x + 1e-13, x - 1e-13, x + 1e-15, x - 1e-15]);
    }
    for x in [1e-300, 1e-17, 1e-16, 2e-16, 1e-15] {
        lo.extend([x, -x]);
    }
    lo.extend(dict::around(-1e4, 1e4, &[&|x| x, &|x| x * DEG]));
    let nl = lo.len();
    v.push(family("to_degrees", format!("{n} latitudes (poles and their neighbours) x {nl} longitudes (up to {} turns either way, cardinal points and their neighbours, source literals)", m / 8), n, move |i, c| {
        for &x in &lo {
            deg_point(x, la[i], 0.0, c)?;
        }
        c.traces += 1;
        c.note(|| format!("latitude {:?} with {nl} longitudes", la[i]));
        Ok(())
    }));
    v.push(family("latitudes_heights", "latitudes of 4001 steps through +-10 quarter turns (only the range is asserted outside +-90 degrees) x 9 longitudes x 11 heights", 4001, |i, c| {
        let lat = (i as f64 - 2000.0) * PI / 400.0;
        for lon in [-PI, -3.0, -1e-9, 0.0, 1.0, PI, 3.2, 6.0, -50.0] {
            for h in [0.0, -0.0, 1e-9, -433.5, 8848.86, 1e5, -1e5, 4e8, 1.5e11, -1e-300, 123456.789] {
                for x in [lat, lat.next_up(), lat.next_down()] {
                    deg_point(lon, x, h, c)?;
                }
            }
        }
        Ok(())
    }));
    let mut dv: Vec<f64> = (-1440..=1440).map(|k| k as f64 * 0.25).collect();
    dv.extend(dict::around(-1e4, 1e4, &[&|x| x]));
    let nd = dv.len();
    let mut la: Vec<f64> = (-360..=360).map(|k| k as f64 * 0.25).collect();
    la.extend(dict::numbers(-90.0, 90.0, &[&|x| x]));
    let nla = la.len();
    v.push(family("to_radians", format!("{nd} longitudes x {nla} latitudes in degrees: exact multiples of pi/180, and back"), nd, move |i, c| {
        for (k, &lat) in la.iter().enumerate() {
            let (lon, h) = (dv[i], (k as f64 - 180.0) * 17.25);
            let d = Geodetic360 { lon, lat, height: h };
            let g = Geodetic::from(d);
            let r = Geodetic::from(&d);
            c.state();
            c.transitions += 2;
            let key = format_args!("{lon:?} {lat:?}");
            ensure!(g.elong == r.elong && g.phi == r.phi && g.height == r.height, key, "by value and by reference differ");
            ensure!((g.elong - lon * DEG).abs() <= 2e-16 * (1.0 + lon.abs() * 0.04) && (g.phi - lat * DEG).abs() <= 5e-16 && g.height == h, key, "{d:?} became {g:?}");
            deg_point(g.elong, g.phi, h, c)?;
        }
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C16

fn parse_geo(t: &str) -> Option<[f64; 3]> {
    let p: Vec<&str> = t.split(',').collect();
    if p.len() != 3 {
        return None;
    }
    let mut r = [0.0; 3];
    for (k, s) in p.iter().enumerate() {
        let b = s.as_bytes();
        // a sign, zero-padded digits, a point, a fixed number of decimals
        let dec = [6, 6, 2][k];
        let int = [2, 3, 5][k];
        let dot = s.find('.')?;
        if !(b[0] == b'+' || b[0] == b'-') || dot < 1 + int || s.len() != dot + 1 + dec {
            return None;
        }
        if k < 2 && dot != 1 + int {
            return None;
        }
        if dot > 1 + int && b[1] == b'0' {
            return None;
        }
        if !b[1..].iter().all(|c| c.is_ascii_digit() || *c == b'.') {
            return None;
        }
        r[k] = s.parse().ok()?;
    }
    Some(r)
}

fn geo_text(d: Geodetic360, c: &mut Ctx) -> Res {
    let key = format_args!("{d:?}");
    let t = d.to_string();
    c.state();
    c.step();
    let Some([lat, lon, h]) = parse_geo(&t) else { bail!(key, "{d:?} printed as {t:?}") };
    ensure!((lat - d.lat).abs() <= 5.0001e-7 && (lon - d.lon).abs() <= 5.0001e-7, key, "{d:?} printed as {t:?}");
    ensure!((h - d.height).abs() <= 5.0001e-3 + d.height.abs() * 2e-16, key, "{d:?} printed as {t:?}");
    for (s, x) in t.split(',').zip([d.lat, d.lon, d.height]) {
        ensure!(x == 0.0 || (s.as_bytes()[0] == b'-') == (x < 0.0), key, "{d:?} printed as {t:?}: wrong sign");
    }
    Ok(())
}

pub fn c16(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let mut fr = vec![0.0, 1e-9, 4.9e-7, 5.1e-7, 1e-6, 0.5, 0.999999, 0.9999994, 0.9999996, 0.9999999, 0.123456789];
    fr.push(1.0 / 3.0);
    let hs = [0.0, -0.0, 0.004, 0.006, -0.004, -0.006, 9.99, 9.996, 99.999, 999.994, 9999.995, 9999.999, 99999.99, 99999.996, -99999.996, 1234567.891, -433.2, 8848.86, 6.4e6, -6.3e6, 1.5e11];
    let lf = fr.clone();
    let st = if thorough { 1 } else { 2 };
    v.push(family("grid", format!("latitude -90..90 and longitude -180..180 (every whole degree of the first, every {st} of the second) x {} fractional parts of each x {} heights: fields in order, signed, zero-padded, right to half a unit", fr.len(), hs.len()), 181, move |i, c| {
        for &f in &lf {
            let la = i as f64 - 90.0;
            let lat = if la < 0.0 { la + f } else { (la + f).min(90.0) };
            for l in (-180i32..=180).step_by(st) {
                for &g in &lf {
                    let lon = if l < 0 { l as f64 + g } else { l as f64 + g * (l < 180) as i32 as f64 };
                    let k = (l.unsigned_abs() as usize + i + (g * 1e3) as usize) % hs.len();
                    geo_text(Geodetic360 { lat, lon, height: hs[k] }, c)?;
                }
            }
        }
        c.traces += 1;
        c.note(|| Geodetic360 { lat: i as f64 - 90.0, lon: 12.5, height: 100.0 }.to_string());
        Ok(())
    }));
    v.push(family("heights", "20001 heights from -100 km to +100 km in steps of 9.9973 m plus powers of ten, x 9 positions", 20001, |i, c| {
        let h = (i as f64 - 10000.0) * 9.9973;
        for (lat, lon) in [(0.0, 0.0), (-0.0, -0.0), (90.0, -180.0), (-90.0, 179.999999), (45.5, -123.25), (-5e-7, 5e-7), (1e-9, -1e-9), (-33.0, 99.999999), (9.9999999, -9.9999999)] {
            for x in [h, h * 1e3, h * 1e-3] {
                geo_text(Geodetic360 { lat, lon, height: x }, c)?;
            }
        }
        Ok(())
    }));
    v.push(family("radian_form", "361 latitudes x 721 longitudes given in radians: same text as the degree form, in range", 361, |i, c| {
        for j in 0..721 {
            let (lat, lon) = ((i as f64 - 180.0) * PI / 360.0, (j as f64 - 360.0) * PI / 360.0);
            let g = Geodetic { elong: lon, phi: lat, height: j as f64 };
            let t = g.to_string();
            c.state();
            c.step();
            let key = format_args!("{lat:?} {lon:?}");
            let Some(p) = parse_geo(&t) else { bail!(key, "{g:?} printed as {t:?}") };
            let mut d = (p[1] - lon / DEG) % 360.0;
            if d.abs() > 180.0 {
                d -= 360.0 * d.signum()
            }
            ensure!((p[0] - lat / DEG).abs() <= 5.1e-7 && d.abs() <= 5.1e-7 && (p[2] - j as f64).abs() <= 0.0051, key, "{g:?} printed as {t:?}");
            ensure!(p[0].abs() <= 90.0 && p[1].abs() <= 180.0, key, "{g:?} printed as {t:?}");
        }
        Ok(())
    }));
    let turns = dict::numbers(-1e4, 1e4, &[&|x| x, &|x| x * DEG, &|x| x * TAU]);
    let nt = turns.len();
    v.push(family("radian_turns", format!("longitudes in radians outside a turn ({nt} source literals, powers of ten, neighbours; -8 to 8 turns in steps of 5 degrees) x 19 latitudes: the text is that of the reduced degree form"), nt + 1153, move |i, c| {
        let lon = if i < nt { turns[i] } else { (i - nt) as f64 * 5.0 * DEG - 8.0 * TAU };
        for l in -9..=9 {
            let g = Geodetic { elong: lon, phi: l as f64 * PI / 18.0, height: l as f64 * 123.456 };
            let t = g.to_string();
            let key = format_args!("{lon:?} {l}");
            c.state();
            c.step();
            let Some(p) = parse_geo(&t) else { bail!(key, "{g:?} printed as {t:?}") };
            let d = adiff(p[1] * DEG, lon) / DEG;
            ensure!((p[0] - l as f64 * 10.0).abs() <= 5.1e-7 && d.abs() <= 5.1e-7 + 1e-13 * lon.abs() && (p[2] - g.height).abs() <= 0.0051, key, "{g:?} printed as {t:?}");
            ensure!(p[0].abs() <= 90.0 && p[1].abs() <= 180.0, key, "{g:?} printed as {t:?}: out of range");
        }
        c.traces += 1;
        Ok(())
    }));
    let ld = dict::numbers(-90.0, 90.0, &[&|x| x, &|x| x / DEG]);
    let lo = dict::numbers(-180.0, 180.0, &[&|x| x, &|x| x / DEG]);
    let hs = dict::numbers(-1e13, 1e13, &[&|x| x, &|x| 1e3 * x]);
    let (na, no, nh) = (ld.len(), lo.len(), hs.len());
    v.push(family("literals", format!("{na} latitudes x {no} longitudes, height rotating, and {nh} heights x 37 x 25 positions (source literals, powers of ten, neighbours)"), na + nh, move |i, c| {
        if i < na {
            for (j, &lon) in lo.iter().enumerate() {
                if thorough || (i + j) % 2 == 0 {
                    geo_text(Geodetic360 { lat: ld[i], lon, height: hs[(i * 7 + j) % nh] }, c)?;
                }
            }
        } else {
            for l in -18..=18 {
                for m in -12..=12 {
                    geo_text(Geodetic360 { lat: l as f64 * 5.0, lon: m as f64 * 15.0, height: hs[i - na] }, c)?;
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v
}
