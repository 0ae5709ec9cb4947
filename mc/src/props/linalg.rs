//! C09-C11: matrices, vectors, angle normalisation.

use crate::dict;
use crate::engine::*;
use crate::model::*;
use crate::{bail, ensure};
use std::collections::{BTreeMap, VecDeque};
use tofas::common::{anp, Mat3, Matrix, Vec3, Vector};

fn trit(mut k: usize) -> M {
    let mut m = [[0.0; 3]; 3];
    for r in &mut m {
        for x in r {
            *x = (k % 3) as f64 - 1.0;
            k /= 3;
        }
    }
    m
}

pub fn angles(thorough: bool) -> Vec<f64> {
    let mut a: Vec<f64> = vec![0.0, -0.0, 1e-300, 1e-17, -1e-12, 1e-9, -1e-7, 1e-5, -1e-4, 1e-3, 0.01, -0.1, 0.3, 1.0, -1.0, 1.2, 2.0, -2.5, 3.0, 4.0, 5.5, -6.0, 7.0, 100.0, -1000.0];
    for k in -8..=8 {
        let x = k as f64 * PI / 4.0;
        a.extend([x, x.next_up(), x.next_down()]);
    }
    if thorough {
        for k in -60..=60 {
            a.push(k as f64 * PI / 60.0);
        }
    }
    a.sort_by(f64::total_cmp);
    a.dedup();
    a
}

pub fn c09(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    // reachable states of the quarter-turn machine
    let mut f = family("quarter_turn_group", "reachability from the identity under the six quarter turns (compose on the left and on the right, transpose): the state space must be exactly the 24 rotations of the cube, every transition equal to the exact integer product", 1, |_, c| {
        let gens: Vec<(M, Mat3)> = (0..3)
            .flat_map(|ax| [1i32, -1].map(|s| (rot(ax, s as f64 * PI / 2.0).map(|r| r.map(|x| x.round())), Mat3::rotation(ax, s as f64 * PI / 2.0))))
            .collect();
        let key = |m: &M| -> Vec<i32> { m.iter().flatten().map(|x| x.round() as i32).collect() };
        let mut seen: BTreeMap<Vec<i32>, M> = BTreeMap::new();
        let mut q = VecDeque::new();
        let id = Mat3::identity();
        ensure!(mdiff(&id, &ID) == 0.0, "identity", "identity() = {id:?}");
        ensure!(mdiff(&Mat3::zero(), &[[0.0; 3]; 3]) == 0.0, "zero", "zero() = {:?}", Mat3::zero());
        seen.insert(key(&ID), ID);
        q.push_back((ID, id));
        while let Some((m, i)) = q.pop_front() {
            c.state();
            for (gm, gi) in &gens {
                for (want, got, nm) in [(mul(&m, gm), i.compose(gi), "right"), (mul(gm, &m), gi.compose(&i), "left"), (tr(&m), i.transpose(), "transpose")] {
                    c.step();
                    ensure!(mdiff(&want, &got) < 1e-13, "product", "{nm} product from {m:?} is {got:?}, expected {want:?}");
                    ensure!(not_rotation(&got) < 1e-13, "rotation", "{got:?} is not a proper rotation");
                    if !seen.contains_key(&key(&want)) {
                        seen.insert(key(&want), want);
                        q.push_back((want, got));
                    }
                }
            }
            ensure!(seen.len() <= 24, "closure", "the quarter turns generate more than 24 matrices");
        }
        ensure!(seen.len() == 24, "closure", "the quarter turns generate {} matrices, not 24", seen.len());
        c.traces += 1;
        c.note(|| "24 states".to_string());
        c.outcome(seen.len() as f64);
        Ok(())
    });
    f.serial = true;
    v.push(f);
    v.push(family("integer_matrices", "all pairs of 3x3 matrices with entries -1, 0, 1 (19683 squared = 387420489): product exact; every one of them multiplied by itself (one and the same object), transposed, and applied to every vector of {-2..2}^3", 19683, |i, c| {
        let a = trit(i);
        let t = a.transpose();
        ensure!(mdiff(&t, &tr(&a)) == 0.0, format!("t{i}"), "transpose of {a:?} is {t:?}");
        ensure!(mdiff(&a.compose(&ID), &a) == 0.0 && mdiff(&ID.compose(&a), &a) == 0.0, format!("id{i}"), "identity changes {a:?}");
        let sq = a.compose(&a);
        ensure!(mdiff(&sq, &mul(&a, &a)) == 0.0, format!("sq{i}"), "{a:?} times itself is {sq:?}");
        for k in 0..125usize {
            let x = [k % 5, k / 5 % 5, k / 25].map(|n| n as f64 - 2.0);
            let y = a.apply(x);
            let w = mulv(&tr(&a), &x);
            ensure!(vdiff(&y, &w) == 0.0, format!("apply{i},{k}"), "{a:?} applied to {x:?} (row vector times matrix) is {y:?}, expected {w:?}");
        }
        for j in 0..19683 {
            let b = trit(j);
            let p = a.compose(&b);
            if mdiff(&p, &mul(&a, &b)) != 0.0 {
                bail!(format!("{i},{j}"), "{a:?} times {b:?} is {p:?}");
            }
        }
        c.states += 1;
        c.transitions += 19683 + 125 + 4;
        c.traces += 1;
        c.note(|| format!("{a:?} times every other"));
        c.outcome(a[0][0] + 3.0 * a[1][1] + 9.0 * a[2][2] + 27.0 * a[0][1]);
        Ok(())
    }));
    let al = angles(true);
    let n = al.len() * 3;
    let depth = if thorough { 5 } else { 3 };
    v.push(family(
        "rotation_words",
        format!("all words of length 1..{depth} over (axis, angle), {} angles for the first letter and 14 for the others: product of rotations against R1/R2/R3, orthonormal with determinant 1, transpose is the inverse, apply consistent", al.len()),
        n,
        move |i, c| {
            let th = al[i / 3];
            let g = Mat3::rotation(i % 3, th);
            let w0 = rot(i % 3, th);
            c.step();
            ensure!(mdiff(&g, &w0) <= 1e-15, format!("{i}"), "rotation({},{th:?}) is {g:?}, expected {w0:?}", i % 3);
            let inv = Mat3::rotation(i % 3, -th);
            ensure!(mdiff(&inv, &tr(&w0)) <= 1e-15, format!("{i}-"), "rotation({},{:?}) is {inv:?}", i % 3, -th);
            const B: [f64; 14] = [0.0, 0.25, -0.7, 1e-8, PI / 2.0, -PI / 2.0, PI, 3.0 * PI / 4.0, -2.2, 5.0, TAU, -1e-3, 12.0, 0.40909];
            let mut m = g;
            let mut w = w0;
            let mut wd = vec![];
            for _ in 1..depth {
                // letter 0 ends the word
                let k = c.choose(43);
                if k == 0 {
                    break;
                }
                let (ax, t) = ((k - 1) % 3, B[(k - 1) / 3]);
                m = m.compose(&Mat3::rotation(ax, t));
                w = mul(&w, &rot(ax, t));
                wd.push((ax, t));
                c.transitions += 2;
            }
            c.state();
            let key = format_args!("{i} {wd:?}");
            ensure!(mdiff(&m, &w) < 4e-15, key, "R{}({th:?}) then {wd:?} is {m:?}, expected {w:?}", i % 3 + 1);
            ensure!(not_rotation(&m) < 4e-15, key, "{m:?} is not a proper rotation");
            ensure!(mdiff(&m.compose(&m.transpose()), &ID) < 4e-15, key, "transpose is not the inverse of {m:?}");
            let x: Vec3 = [0.3, -1.7, 2.9];
            ensure!(vdiff(&m.apply(x), &mulv(&tr(&w), &x)) < 4e-14, key, "{m:?} applied to {x:?}");
            ensure!((m.apply(x).norm() - norm(&x)).abs() < 2e-14, key, "{m:?} changes the length of {x:?}");
            c.outcome(m[0][0]);
            c.traces += 1;
            c.note(|| format!("R{}({th:?}) {wd:?}", i % 3 + 1));
            Ok(())
        },
    ));
    let mut xs: Vec<f64> = dict::numbers(-1e6, 1e6, &[&|x| x, &|x| x * DEG, &|x| x * AS]);
    xs.extend((-80000..=80000).map(|k| k as f64 * 0.01 * DEG));
    let nx = xs.len();
    v.push(family("rotation_literals", format!("{nx} angles (every hundredth of a degree through two turns either way, around every source literal in radians, degrees and arcseconds, powers of ten), 3 axes"), nx, move |i, c| {
        for ax in 0..3 {
            let t = xs[i];
            c.state();
            c.step();
            ensure!(mdiff(&Mat3::rotation(ax, t), &rot(ax, t)) <= 1e-15, format!("{ax},{t:?}"), "rotation({ax},{t:?}) is {:?}", Mat3::rotation(ax, t));
        }
        Ok(())
    }));
    let xs = dict::numbers(-1e25, 1e25, &[&|x| x]);
    let nx = xs.len();
    v.push(family("entries", format!("{nx} numbers (source literals, powers of ten, neighbours, both signs) in each of the nine places of four matrices, times four matrices on either side, transposed, and applied; and in each place of four vectors"), nx, move |i, c| {
        let bases: [M; 4] = [[[0.0; 3]; 3], ID, [[0.3, -1.7, 2.5], [1e-9, 4.0, -0.125], [7.0, 1e5, -3.3e-4]], [[1.0, 1e-7, -2e-7], [-1e-7, 1.0, 3e-8], [2e-7, -3e-8, 1.0]]];
        let close = |g: &M, w: &M, s: &M| (0..9).all(|k| (g[k / 3][k % 3] - w[k / 3][k % 3]).abs() <= 4.0 * f64::EPSILON * s[k / 3][k % 3]);
        let absm = |m: &M| m.map(|r| r.map(f64::abs));
        let x = xs[i];
        for (n, b0) in bases.iter().enumerate() {
            for k in 0..9 {
                let mut a = *b0;
                a[k / 3][k % 3] = x;
                let key = format_args!("{x:?} at {k} of {n}");
                c.state();
                c.step();
                ensure!(a.transpose() == tr(&a), key, "transpose of {a:?} is {:?}", a.transpose());
                for b in &bases {
                    c.transitions += 2;
                    let (p, q) = (a.compose(b), b.compose(&a));
                    ensure!(close(&p, &mul(&a, b), &mul(&absm(&a), &absm(b))), key, "{a:?} times {b:?} is {p:?}");
                    ensure!(close(&q, &mul(b, &a), &mul(&absm(b), &absm(&a))), key, "{b:?} times {a:?} is {q:?}");
                }
                for m in 0..3 {
                    for u in [[0.0, 0.0, 0.0], [1.1, -2.3, 0.7], [1e-6, 3.1e4, -7.3], [0.3, 1e-9, 1e-5 / 3.0]] {
                        let mut u: Vec3 = u;
                        for (t, mm) in [(u, a), ({ u[m] = x; u }, *b0)] {
                            let (g, w, s) = (mm.apply(t), mulv(&tr(&mm), &t), mulv(&tr(&absm(&mm)), &t.map(f64::abs)));
                            c.step();
                            ensure!((0..3).all(|k| (g[k] - w[k]).abs() <= 4.0 * f64::EPSILON * s[k]), key, "{mm:?} applied to {t:?} is {g:?}, expected {w:?}");
                        }
                    }
                }
            }
        }
        c.outcome(x);
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C10

fn vec_point(a: Vec3, b: Vec3, c: &mut Ctx) -> Res {
    let key = format_args!("{a:?},{b:?}");
    let rel = |x: f64, y: f64, s: f64| (x - y).abs() <= 4.0 * f64::EPSILON * s;
    let (na, nb) = (a[0].hypot(a[1]).hypot(a[2]), b[0].hypot(b[1]).hypot(b[2]));
    c.state();
    c.transitions += 7;
    ensure!(rel(a.norm(), na, na), key, "|{a:?}| is {:?}, expected {na:?}", a.norm());
    for k in 0..3 {
        ensure!(a.add(b)[k] == a[k] + b[k], key, "{a:?} + {b:?} is {:?}", a.add(b));
        ensure!(a.sub(b)[k] == a[k] - b[k], key, "{a:?} - {b:?} is {:?}", a.sub(b));
        ensure!(a.neg()[k] == -a[k], key, "-{a:?} is {:?}", a.neg());
    }
    let d = a.dot(b);
    let w = dot(&a, &b);
    let ab: f64 = (0..3).map(|k| (a[k] * b[k]).abs()).sum();
    ensure!((d - w).abs() <= 4.0 * f64::EPSILON * ab, key, "{a:?} . {b:?} is {d:?}, expected {w:?}");
    ensure!(rel(b.dot(a), d, na * nb), key, "dot product not symmetric on {a:?}, {b:?}");
    if na > 0.0 {
        let u = a.normalize();
        for k in 0..3 {
            ensure!((u[k] - a[k] / na).abs() <= 6.0 * f64::EPSILON * (a[k] / na).abs() + 1e-300, key, "normalize({a:?}) is {u:?}");
        }
        if nb > 0.0 {
            let g = a.angle(b);
            ensure!(g >= 0.0 && g <= PI, key, "angle({a:?},{b:?}) is {g:?}, outside [0,pi]");
            let want = vangle(&a, &b);
            // conditioning of the arc cosine, 4e-8 at the ends
            let tol = (3e-15 / want.sin().abs().max(1e-300)).min(4e-8) + 1e-15;
            ensure!((g - want).abs() <= tol, key, "angle({a:?},{b:?}) is {g:?}, expected {want:?}");
            let r = b.angle(a);
            ensure!((r - g).abs() <= 2.0 * tol, key, "angle not symmetric on {a:?}, {b:?}: {g:?}, {r:?}");
            let s = a.neg().angle(b);
            ensure!((s - (PI - g)).abs() <= 2.0 * tol, key, "angle(-a,b) is {s:?} while angle(a,b) is {g:?} for {a:?}, {b:?}");
            c.transitions += 3;
            c.outcome(g);
        }
    }
    Ok(())
}

pub fn c10(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let r: i64 = if thorough { 14 } else { 9 };
    let w = (2 * r + 1) as usize;
    let n = w * w * w;
    let lat = move |k: usize| [k % w, k / w % w, k / w / w].map(|x| (x as i64 - r) as f64);
    v.push(family("lattice_pairs", format!("all pairs of vectors of the integer lattice [-{r},{r}]^3"), n, move |i, c| {
        let a = lat(i);
        for j in 0..n {
            vec_point(a, lat(j), c)?;
        }
        c.note(|| format!("{a:?} with all {n} others"));
        c.traces += 1;
        Ok(())
    }));
    let scales = [1e-100, 1e-30, 1e-7, 0.1, 1.0 / 3.0, 7.0, 1.5e8, 1.495978707e11, 1e60, 1e100];
    v.push(family("scaled_pairs", format!("all pairs of the lattice [-2,2]^3 with each vector scaled by each of {} factors (1e-100 to 1e100): angle, unit vector, scale", scales.len()), 125, move |i, c| {
        let l = |k: usize| [k % 5, k / 5 % 5, k / 25].map(|x| x as f64 - 2.0);
        let a0: Vec3 = l(i);
        for j in 0..125 {
            let b0: Vec3 = l(j);
            for s in scales {
                let a = a0.scale(s);
                for k in 0..3 {
                    ensure!(a[k] == a0[k] * s, format!("{a0:?}*{s:?}"), "{a0:?} scaled by {s:?} is {a:?}");
                }
                for t in scales {
                    vec_point(a, b0.scale(t), c)?;
                }
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let fs: Vec<f64> = [0.0, -0.0].into_iter().chain(dict::numbers(-1e18, 1e18, &[&|x| x, &|x| x * DEG, &|x| 1.0 / x])).collect();
    let nf = fs.len();
    v.push(family("scale", format!("{nf} factors (0, +-1, source literals, powers of ten, neighbours, both signs) x the lattice [-2,2]^3 plain, skewed and tiny: each component is the product"), nf, move |i, c| {
        for k in 0..125 {
            let l: Vec3 = [k % 5, k / 5 % 5, k / 25].map(|x| x as f64 - 2.0);
            for m in [[1.0, 1.0, 1.0], [0.1, -1e7, 1.0 / 3.0], [1e-9, 7.0, 1e-17]] {
                let a: Vec3 = std::array::from_fn(|n| l[n] * m[n]);
                let b = a.scale(fs[i]);
                c.state();
                c.step();
                ensure!((0..3).all(|n| b[n] == a[n] * fs[i]), format_args!("{:?} {a:?}", fs[i]), "{a:?} scaled by {:?} is {b:?}", fs[i]);
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let steps: Vec<f64> = (0..=17).flat_map(|k| [1.0, 2.5, 6.0].map(|m| m * 10f64.powi(-k))).chain([0.0]).collect();
    v.push(family("near_parallel", "343 lattice directions with 7 lengths x 55 small tilts about 3 axes, towards and away: never NaN, never outside [0,pi]", 343, move |i, c| {
        let a0 = [i % 7, i / 7 % 7, i / 49].map(|x| x as f64 - 3.0);
        if a0 == [0.0; 3] {
            return Ok(());
        }
        for s in [1.0, 0.1, 1.0 / 3.0, 1e-5, 3.7e9, 1e60, 1.1e-60] {
            let a: Vec3 = a0.map(|x| x * s);
            for &e in &steps {
                for ax in 0..3 {
                    let b = mulv(&rot(ax, e), &a0);
                    vec_point(a, b, c)?;
                    vec_point(a, b.map(|x| -x * 1.7), c)?;
                }
            }
        }
        Ok(())
    }));
    let cs = [0.0, 1.0, -1.0, 1e-3, -1e-3, 1e-9, -1e-9, 1e-16, -1e-16, 7.0, -7.0, 1e6, -1e6, 1e11, -1e11, 3e-155, -3e-155, 1e-300];
    let nc = cs.len();
    v.push(family("mixed_magnitudes", format!("all pairs of vectors with components from {nc} values of either sign, 0 and 1e11 down to 1e-300 in size: sums, products and unit vectors right to the last places of each component"), nc * nc * nc, move |i, c| {
        let l = |k: usize| [cs[k % nc], cs[k / nc % nc], cs[k / nc / nc]];
        let a: Vec3 = l(i);
        // squares of the components must neither vanish altogether nor overflow
        let ok = |x: &Vec3| norm(x) > 1e-100 || *x == [0.0; 3];
        if !ok(&a) {
            return Ok(());
        }
        for j in 0..nc * nc * nc {
            let b = l(j);
            if ok(&b) {
                vec_point(a, b, c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    let ls: Vec<f64> = dict::numbers(1e-18, 1e18, &[&|x| x, &|x| x * DEG, &|x| 1.0 + x, &|x| x.sqrt()]);
    let nl = ls.len();
    v.push(family("lengths", format!("13 directions, each with {nl} lengths: powers of ten, 1 +- powers of ten, around every source literal and 1 + it, against 5 vectors"), nl, move |i, c| {
        for d in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.6, 0.8, 0.0], [0.0, 0.6, -0.8], [-0.8, 0.0, 0.6], [2.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0], [1.0, 1.0, 1.0], [-1.0, -1.0, -1.0], [3.0, -4.0, 12.0], [1e-3, 1.0, 0.0], [1e-9, 0.0, -1.0], [0.1, 0.2, 0.3]] {
            let a: Vec3 = d.map(|x| x * ls[i]);
            for b in [[1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [-1.0, 2.0, 0.5], d, a] {
                vec_point(a, b, c)?;
            }
        }
        c.traces += 1;
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------- C11

fn anp_point(a: f64, c: &mut Ctx) -> Res {
    let w = anp(a);
    c.state();
    c.step();
    ensure!(w >= 0.0 && w < TAU, format!("{a:?}"), "anp({a:?}) is {w:?}, outside [0,2pi)");
    if a.abs() <= 1e15 {
        let d = adiff(w, a % TAU).abs();
        ensure!(d <= 4.0 * f64::EPSILON * (a.abs() + 1.0), format!("{a:?}"), "anp({a:?}) is {w:?}: not the same direction");
    }
    if a >= 0.0 && a < TAU {
        ensure!((w - a).abs() <= 1e-15, format!("{a:?}"), "anp({a:?}) is {w:?} though already in range");
    }
    c.outcome(w);
    Ok(())
}

pub fn c11(thorough: bool) -> Vec<Family> {
    let mut v = vec![];
    let n = if thorough { 20_000_000 } else { 1_000_000 };
    v.push(family("multiples", format!("k*pi/8 for |k| <= {n} and its 6 nearest doubles, and offsets 1e-15..1 on both sides"), 2 * n + 1, move |i, c| {
        let x = (i as i64 - n as i64) as f64 * PI / 8.0;
        let (mut u, mut d) = (x, x);
        for _ in 0..4 {
            anp_point(u, c)?;
            anp_point(d, c)?;
            u = u.next_up();
            d = d.next_down();
        }
        for e in [1e-16, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0] {
            anp_point(x + e, c)?;
            anp_point(x - e, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    v.push(family("magnitudes", "both signs of m*2^e, m = 1 + k/64, e = -1074..49: tiny to huge arguments", 1124, |i, c| {
        let e = i as i32 - 1074;
        for k in 0..64 {
            let x = (1.0 + k as f64 / 64.0) * 2f64.powi(e.max(-1022)) * if e < -1022 { 2f64.powi(e + 1022) } else { 1.0 };
            anp_point(x, c)?;
            anp_point(-x, c)?;
        }
        c.note(|| format!("2^{e}"));
        Ok(())
    }));
    let m = if thorough { 1_000_000 } else { 50_000 };
    v.push(family("turns", format!("every 1/{m} of a turn through 500 turns either way"), 1001, move |i, c| {
        for k in 0..m {
            anp_point((i as f64 - 500.0 + k as f64 / m as f64) * TAU, c)?;
        }
        c.traces += 1;
        Ok(())
    }));
    let xs = dict::numbers(-1e15, 1e15, &[&|x| x, &|x| x * DEG, &|x| x * TAU, &|x| x * AS]);
    let nx = xs.len();
    v.push(family("literals", format!("{nx} values around every source literal (as radians, degrees, turns, arcseconds)"), nx, move |i, c| anp_point(xs[i], c)));
    v
}
