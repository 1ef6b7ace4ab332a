//! C11-C14: construction of curves from geometry, arc length.
use crate::c_basic::structure;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim};
use curvo::prelude::*;
use nalgebra::{Point2, Point3};

/// distinct consecutive points with bounded spacing ratio
fn points(c: &mut Ctx, dim: usize, n: usize, closed: bool) -> Vec<V> {
    let r = &mut c.rng;
    let sc = *r.pick(&[1.0, 10.0, 100.0, 0.1]);
    let off: V = (0..dim).map(|_| r.range(-20.0, 20.0)).collect();
    loop {
        let walk = r.bool(0.5);
        let mut cur = off.clone();
        let pts: Vec<V> = (0..n)
            .map(|i| {
                if closed && walk {
                    let a = std::f64::consts::TAU * i as f64 / n as f64;
                    let rad = sc * r.range(0.4, 1.6);
                    let mut v = vec![off[0] + rad * a.cos(), off[1] + rad * a.sin()];
                    if dim == 3 {
                        v.push(off[2] + sc * r.range(-0.5, 0.5));
                    }
                    v
                } else if walk {
                    for x in cur.iter_mut() {
                        *x += r.range(-0.4, 0.9) * sc;
                    }
                    cur.clone()
                } else {
                    (0..dim).map(|k| off[k] + r.range(-1.0, 1.0) * sc).collect()
                }
            })
            .collect();
        let m = if closed { n } else { n - 1 };
        let ok = (0..m).all(|i| dist(&pts[i], &pts[(i + 1) % n]) > 0.12 * sc);
        if ok {
            return pts;
        }
    }
}

/// smallest parameter >= lo (minus slack) at which the curve passes `q` within tol
fn passes(rc: &RC, q: &[f64], lo: f64, tol: f64) -> Option<f64> {
    let br = rc.breaks();
    for w in br.windows(2) {
        if w[1] < lo {
            continue;
        }
        let n = 12;
        for i in 0..=n {
            let mut u = w[0] + (w[1] - w[0]) * i as f64 / n as f64;
            let s = span_of(&rc.k, rc.p, 0.5 * (w[0] + w[1]));
            for _ in 0..12 {
                let d = rc.ders_in(s, u);
                let e = sub(&d[0], q);
                let den = dot(&d[1], &d[1]) + dot(&e, &d[2]);
                if den.abs() < 1e-300 {
                    break;
                }
                u = (u - dot(&e, &d[1]) / den).clamp(w[0], w[1]);
            }
            if u >= lo - 1e-9 * (br[br.len() - 1] - br[0]) && dist(&rc.ders_in(s, u)[0], q) <= tol {
                return Some(u);
            }
        }
    }
    None
}

fn in_order(c: &mut Ctx, rc: &RC, pts: &[V], guess: &[f64], tol: f64, key: &str) -> R {
    let mut lo = rc.dom().0;
    let direct = pts.iter().zip(guess).map(|(p, u)| dist(&rc.at(*u), p)).fold(0.0, f64::max);
    c.err("interpolation_error", direct / rc.scale());
    c.ev("points_interpolated", pts.len() as u64);
    if direct <= tol {
        return Ok(());
    }
    for (i, q) in pts.iter().enumerate() {
        match passes(rc, q, lo, tol) {
            Some(u) => lo = u,
            None => return Err(Stop::V(key.to_string(), format!("the curve does not pass point {i} {q:?} in order (distance at its chord parameter up to {direct:.3e}, tolerance {tol:.1e})"))),
        }
    }
    Ok(())
}

fn c11_open(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let p = c.rng.int(1, 6);
    let n = p + 1 + if c.rng.bool(0.3) { 0 } else { c.rng.int(0, 12) };
    let n = n.max(2);
    let pts = points(c, dim, n, false);
    c.describe(format!("interpolate deg={p} pts={pts:?}"));
    c.shape(&[p as u64, n as u64, dim as u64]);
    let mut us = vec![0.0];
    for w in pts.windows(2) {
        us.push(us.last().unwrap() + dist(&w[0], &w[1]));
    }
    let t = us[n - 1];
    us.iter_mut().for_each(|u| *u /= t);
    macro_rules! go {
        ($C:ty, $f:expr) => {{
            let ps: Vec<_> = pts.iter().map(|p| $f(p)).collect();
            if n > 1 && p > 1 {
                let few = &ps[..p.min(n)];
                chk!(<$C>::try_interpolate(few, p).is_err(), "interp-few", "{} points accepted for degree {p}", few.len());
            }
            let cv = must!(<$C>::try_interpolate(&ps, p), "interpolate");
            structure(&cv, "try_interpolate")?;
            chk!(cv.degree() == p, "interp-degree", "degree {} asked {p}", cv.degree());
            chk!(cv.is_clamped(), "interp-clamped", "not clamped");
            let rc = RC::of(&cv);
            let sc = pts.iter().map(|p| norm(p)).fold(0.0, f64::max);
            // the system is banded and totally positive; allow for its conditioning
            let amp = rc.scale() / sc;
            let tol = 1e-9 * sc * (1.0 + amp) * (1.0 + n as f64);
            let (a, b) = rc.dom();
            let e = (dist(&pv(&cv.point_at(a)), &pts[0]), dist(&pv(&cv.point_at(b)), &pts[n - 1]));
            chk!(e.0 <= tol && e.1 <= tol, "interp-ends", "ends off by {e:?} (tol {tol:.1e})");
            let g: Vec<f64> = us.iter().map(|u| a + (b - a) * u).collect();
            in_order(c, &rc, &pts, &g, tol, "interp-points")?;
            for (u, q) in g.iter().zip(&pts).take(3) {
                let x = pv(&cv.point_at(*u));
                chk!(dist(&x, q) <= tol * 10.0 || dist(&x, &rc.at(*u)) <= tol, "interp-eval", "evaluation at {u} inconsistent");
            }
            Ok(())
        }};
    }
    if dim == 2 {
        go!(NurbsCurve2D<f64>, p2)
    } else {
        go!(NurbsCurve3D<f64>, p3)
    }
}

fn style(c: &mut Ctx) -> KnotStyle {
    match c.rng.int(0, 2) {
        0 => KnotStyle::Uniform,
        1 => KnotStyle::Chordal,
        _ => KnotStyle::Centripetal,
    }
}

fn seam(rc: &RC, tol: f64) -> R {
    // homogeneous derivatives up to degree-1 agree at both domain ends
    let (a, b) = rc.dom();
    let (s0, s1) = (span_of(&rc.k, rc.p, a), span_of(&rc.k, rc.p, b));
    let h = (b - a) / (rc.breaks().len() - 1) as f64;
    for j in 0..rc.p {
        let (x, y) = (rc.hom_in(s0, a, j), rc.hom_in(s1, b, j));
        let unit = rc.scale() * (rc.p as f64 / h).powi(j as i32);
        let minspan = rc.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        let unit = unit.max(rc.scale() * (rc.p as f64 / minspan).powi(j as i32));
        chk!(dist(&x, &y) <= tol * unit, "seam", "derivative {j} jumps at the seam: {x:?} vs {y:?} (unit {unit:.3e})");
    }
    Ok(())
}

fn c11_periodic(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let p = c.rng.int(1, 5);
    let n = (p + 1 + c.rng.int(0, 9)).max(3);
    let pts = points(c, dim, n, true);
    let st = style(c);
    c.describe(format!("periodic interpolate deg={p} style={st:?} pts={pts:?}"));
    c.shape(&[p as u64, n as u64, dim as u64, st.clone() as u64]);
    macro_rules! go {
        ($C:ty, $f:expr) => {{
            let ps: Vec<_> = pts.iter().map(|p| $f(p)).collect();
            let few = &ps[..p.min(n)];
            chk!(<$C>::try_periodic_interpolate(few, p, st.clone()).is_err(), "periodic-interp-few", "{} points accepted for degree {p}", few.len());
            let cv = match <$C>::try_periodic_interpolate(&ps, p, st.clone()) {
                Ok(v) => v,
                Err(e) => {
                    // interpolation at the knots of an even degree periodic spline may be singular
                    if p % 2 == 0 && n % 2 == 0 {
                        return Err(Stop::Skip("singular even-degree periodic system"));
                    }
                    return Err(Stop::V("periodic-interp-fails".into(), format!("{e}")));
                }
            };
            chk!(cv.degree() == p, "periodic-interp-degree", "degree {} asked {p}", cv.degree());
            let rc = RC::of(&cv);
            let sc = pts.iter().map(|p| norm(p)).fold(0.0, f64::max);
            let amp = rc.scale() / sc;
            if !(amp < 1e5) && p % 2 == 0 {
                // whatever its conditioning, a returned curve passes through the points
                let (a, b) = rc.dom();
                let br = rc.breaks();
                let mut g: Vec<f64> = br[..br.len().min(n)].to_vec();
                g.resize(n, b);
                let at = br.iter().chain([&a]).map(|u| dist(&pv(&cv.point_at(*u)), &pts[0])).fold(f64::MAX, f64::min);
                chk!(at <= 1e-6 * sc, "periodic-interp-ill", "nearly singular system (control points up to {:.2e} times the points): the closest knot misses the first point by {at:.2e}", amp);
                in_order(c, &rc, &pts, &g, 1e-6 * sc, "periodic-interp-points")?;
                c.ev("ill_conditioned_systems", 1);
                return Ok(());
            }
            structure(&cv, "try_periodic_interpolate")?;
            let tol = 1e-9 * sc * (1.0 + amp) * (1.0 + n as f64);
            let (a, b) = rc.dom();
            // parameters of the points: knots of the domain
            let br = rc.breaks();
            let mut g: Vec<f64> = br[..br.len().min(n)].to_vec();
            g.resize(n, b);
            in_order(c, &rc, &pts, &g, tol, "periodic-interp-points")?;
            let e = (dist(&pv(&cv.point_at(a)), &pts[0]), dist(&pv(&cv.point_at(b)), &pts[0]));
            chk!(e.0 <= tol && e.1 <= tol, "periodic-interp-ends", "the curve starts/ends {e:?} away from the first point (tol {tol:.1e})");
            seam(&rc, 1e-7)?;
            c.ev("seams_checked", 1);
            // the style fixes the parameters of the points
            let steps: V = (0..n)
                .map(|i| match &st {
                    KnotStyle::Uniform => 1.0,
                    KnotStyle::Chordal => dist(&pts[i], &pts[(i + 1) % n]),
                    KnotStyle::Centripetal => dist(&pts[i], &pts[(i + 1) % n]).sqrt(),
                })
                .collect();
            let total: f64 = steps.iter().sum();
            let speed = rc.params(4).iter().map(|u| norm(&rc.ders(*u)[1])).fold(0.0, f64::max);
            let mut t = a;
            for i in 0..n {
                let d = dist(&pv(&cv.point_at(t)), &pts[i]);
                chk!(d <= tol + 1e-9 * speed * (b - a), "periodic-interp-style", "point {i} belongs at {t} for {st:?} spacing, the curve is {d:.2e} off there");
                t = (t + (b - a) * steps[i] / total).min(b);
            }
            Ok(())
        }};
    }
    if dim == 2 {
        go!(NurbsCurve2D<f64>, p2)
    } else {
        go!(NurbsCurve3D<f64>, p3)
    }
}

fn c12_periodic(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let p = c.rng.int(1, 6);
    let n = p + 1 + c.rng.int(0, 9);
    let pts = points(c, dim, n, true);
    c.describe(format!("periodic deg={p} pts={pts:?}"));
    c.shape(&[p as u64, n as u64, dim as u64]);
    macro_rules! go {
        ($C:ty, $f:expr) => {{
            let ps: Vec<_> = pts.iter().map(|p| $f(p)).collect();
            chk!(<$C>::try_periodic(&ps[..p], p).is_err(), "periodic-few", "{p} points accepted for degree {p}");
            let cv = must!(<$C>::try_periodic(&ps, p), "periodic");
            structure(&cv, "try_periodic")?;
            chk!(cv.degree() == p, "periodic-degree", "degree {} asked {p}", cv.degree());
            let rc = RC::of(&cv);
            seam(&rc, 1e-11)?;
            let (a, b) = cv.knots_domain();
            let sc = rc.scale();
            let (x, y) = (pv(&cv.point_at(a)), pv(&cv.point_at(b)));
            chk!(dist(&x, &y) <= 1e-12 * sc, "periodic-ends", "ends {x:?} vs {y:?}");
            chk!(cv.is_closed(), "periodic-is-closed", "is_closed() is false although the ends are {:.3e} apart (scale {sc:.2})", dist(&x, &y));
            if p > 1 {
                let (x, y) = (vv(&cv.tangent_at(a)), vv(&cv.tangent_at(b)));
                chk!(dist(&x, &y) <= 1e-10 * (sc + norm(&x)) * p as f64, "periodic-tangent", "tangents at the seam {x:?} vs {y:?}");
            }
            // the periodic uniform B-spline: sum of cardinal B-splines
            let h = (b - a) / n as f64;
            for _ in 0..20 {
                let s = c.rng.range(0.0, n as f64);
                let q = pv(&cv.point_at(a + h * s));
                let i = s.floor() as usize;
                let f = s - i as f64;
                // cardinal spline on [p, p+1) of knots 0..2p+1
                let k: Vec<f64> = (0..(2 * p + 2)).map(|v| v as f64).collect();
                let bs = basis_in(&k, p, p, p as f64 + f);
                let mut w = vec![0.0; dim];
                for j in 0..=p {
                    w = add(&w, &mul(&pts[(i + j) % n], bs[j]));
                }
                chk!(dist(&q, &w) <= 1e-11 * sc, "periodic-points", "at {} of {n} spans the curve is at {q:?}, the periodic B-spline at {w:?}", s);
                c.ev("periodic_points", 1);
            }
            Ok(())
        }};
    }
    if dim == 2 {
        go!(NurbsCurve2D<f64>, p2)
    } else {
        go!(NurbsCurve3D<f64>, p3)
    }
}

const TAU: f64 = std::f64::consts::TAU;

#[derive(Clone, Debug)]
struct Conic {
    dim: usize,
    o: V,
    x: V,
    y: V,
    rx: f64,
    ry: f64,
    a: f64,
    b: f64,
}
fn angles(c: &mut Ctx) -> (f64, f64) {
    let a = match c.rng.int(0, 3) {
        0 => 0.0,
        1 => c.rng.range(-4.0 * TAU, 4.0 * TAU),
        2 => TAU * c.rng.int(0, 8) as f64 / 8.0,
        _ => c.rng.range(-TAU, TAU),
    };
    let th = match c.rng.int(0, 4) {
        0 => TAU,
        1 => TAU * c.rng.int(1, 16) as f64 / 16.0,
        2 => 10f64.powf(c.rng.range(-6.0, -1.0)),
        3 if c.rng.bool(0.3) => {
            // next to a whole number of quarter turns
            let e = 10f64.powf(c.rng.range(-15.0, -1.0)) * if c.rng.bool(0.5) { 1.0 } else { -1.0 };
            TAU * c.rng.int(1, 3) as f64 / 4.0 * (1.0 + e)
        }
        _ => c.rng.range(0.05, TAU),
    };
    (a, a + th)
}
/// common checks of a conic arc
fn conic_ok<D>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, k: &Conic) -> R
where
    D: nalgebra::DimName + nalgebra::DimNameSub<nalgebra::U1>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<nalgebra::DimNameDiff<D, nalgebra::U1>>,
{
    structure(cv, "conic")?;
    let rc = RC::of(cv);
    let (d0, d1) = cv.knots_domain();
    let sc = k.rx.max(k.ry);
    let mag = sc + norm(&k.o);
    let th = k.b - k.a;
    let tol = 1e-11 * mag / sc * (1.0 + k.a.abs());
    let at = |ang: f64| -> V { (0..k.dim).map(|i| k.o[i] + k.x[i] * k.rx * ang.cos() + k.y[i] * k.ry * ang.sin()).collect() };
    let (s, e) = (pv(&cv.point_at(d0)), pv(&cv.point_at(d1)));
    chk!(dist(&s, &at(k.a)) <= tol * sc, "conic-start", "starts at {s:?}, the point at angle {} is {:?}", k.a, at(k.a));
    chk!(dist(&e, &at(k.b)) <= tol * sc, "conic-end", "ends at {e:?}, the point at angle {} is {:?}", k.b, at(k.b));
    let mut last = 0.0;
    let n = 40;
    let mut us: Vec<f64> = (1..n).map(|i| d0 + (d1 - d0) * (i as f64 + c.rng.range(-0.4, 0.4)) / n as f64).collect();
    us.extend(rc.breaks().iter().cloned().filter(|u| *u > d0 && *u < d1));
    us.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let (d, ca, sa) = ((), k.a.cos(), k.a.sin());
    let _ = d;
    for u in us {
        let q = sub(&pv(&cv.point_at(u)), &k.o);
        let (x, y) = (dot(&q, &k.x) / k.rx, dot(&q, &k.y) / k.ry);
        let off = sub(&q, &add(&mul(&k.x, x * k.rx), &mul(&k.y, y * k.ry)));
        let r = (x * x + y * y).sqrt();
        c.err("conic_equation", (r - 1.0).abs());
        chk!((r - 1.0).abs() <= tol && norm(&off) <= tol * sc, "conic-equation", "at {u} the point is at normalised radius {r:.12} (must be 1), {:.2e} off its plane", norm(&off));
        // swept angle from the start direction
        let (cx, sx) = (x * ca + y * sa, -x * sa + y * ca);
        let mut ang = sx.atan2(cx);
        if ang < -1e-9 { ang += TAU; }
        chk!(ang >= last - 1e-6 * th - 4.0 * tol * sc / k.rx.min(k.ry) && ang <= th + 1e-6 * th + 4.0 * tol * sc / k.rx.min(k.ry), "conic-sweep", "swept angle {ang} after {last} at {u} (total {th})");
        last = ang;
        c.ev("conic_points", 1);
    }
    if k.a == 0.0 && k.b == TAU {
        chk!(cv.is_closed(), "conic-is-closed", "a full conic is not reported closed: ends {s:?} and {e:?}");
    }
    Ok(())
}

fn c13_conic(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let (x, y): (V, V) = if dim == 2 {
        let a = c.rng.range(0.0, TAU);
        let s = if c.rng.bool(0.3) { -1.0 } else { 1.0 };
        (vec![a.cos(), a.sin()], vec![-a.sin() * s, a.cos() * s])
    } else {
        let f = frame3(&mut c.rng);
        (f.0, f.1)
    };
    let osc = *c.rng.pick(&[0.0, 1.0, 30.0, 300.0]);
    let o: V = (0..dim).map(|_| c.rng.range(-1.0, 1.0) * osc).collect();
    let lr = |c: &mut Ctx| 10f64.powf(c.rng.range(-1.0, 2.0));
    let (rx, ry) = (lr(c), lr(c));
    let kind = c.rng.int(0, 3);
    let (a, b) = if kind < 2 { (0.0, TAU) } else { angles(c) };
    let ry = if kind == 0 || kind == 2 { rx } else { ry };
    let k = Conic { dim, o, x, y, rx, ry, a, b };
    c.describe(format!("{kind} {k:?}"));
    c.shape(&[kind as u64, dim as u64, ((b - a) * 8.0 / TAU) as u64, (a.abs() * 4.0 / TAU) as u64, (rx > ry) as u64]);
    macro_rules! go {
        ($C:ty, $pf:expr, $vf:expr) => {{
            let ctr = $pf(&k.o);
            let (ax, ay) = ($vf(&k.x), $vf(&k.y));
            let (sx, sy) = (ax * k.rx, ay * k.ry);
            let f = c.rng.range(0.3, 3.0); // circle/arc axes need not be unit vectors
            let cv = match kind {
                0 => must!(<$C>::try_circle(&ctr, &(ax * f), &(ay * f), k.rx), "circle"),
                1 => must!(<$C>::try_ellipse(&ctr, &sx, &sy), "ellipse"),
                2 => must!(<$C>::try_arc(&ctr, &(ax * f), &(ay * f), k.rx, k.a, k.b), "arc"),
                _ => must!(<$C>::try_ellipse_arc(&ctr, &sx, &sy, k.a, k.b), "ellipse-arc"),
            };
            conic_ok(c, &cv, &k)?;
            chk!(<$C>::try_arc(&ctr, &ax, &ay, k.rx, k.b, k.a).is_err(), "arc-range", "reversed angles accepted");
            if kind == 0 || kind == 2 {
                let l = must!(cv.try_length(), "length");
                let w = k.rx * (k.b - k.a);
                chk!((l - w).abs() <= 1e-6 * w + 1e-11 * norm(&k.o), "arc-length", "length {l} must be {w}");
            }
            Ok(())
        }};
    }
    if dim == 2 {
        go!(NurbsCurve2D<f64>, p2, v2)
    } else {
        go!(NurbsCurve3D<f64>, p3, v3)
    }
}

fn c13_polyline(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let n = c.rng.int(2, 14);
    let pts = points(c, dim, n, false);
    let norm_k = c.rng.bool(0.5);
    c.describe(format!("polyline norm={norm_k} {pts:?}"));
    c.shape(&[n as u64, dim as u64, norm_k as u64]);
    let total: f64 = pts.windows(2).map(|w| dist(&w[0], &w[1])).sum();
    macro_rules! go {
        ($C:ty, $pf:expr) => {{
            let ps: Vec<_> = pts.iter().map(|p| $pf(p)).collect();
            let cv = <$C>::polyline(&ps, norm_k);
            structure(&cv, "polyline")?;
            chk!(cv.degree() == 1, "polyline-degree", "degree {}", cv.degree());
            let (a, b) = cv.knots_domain();
            chk!((a - 0.0).abs() < 1e-12 && (b - if norm_k { 1.0 } else { total }).abs() <= 1e-9 * b, "polyline-domain", "domain {:?}, total length {total}", (a, b));
            let sc = pts.iter().map(|p| norm(p)).fold(total, f64::max);
            // by arc length: normalised parameter = fraction of the length
            let mut acc = 0.0;
            for w in pts.windows(2) {
                let l = dist(&w[0], &w[1]);
                for f in [0.0, c.rng.range(0.0, 1.0), 1.0] {
                    let u = a + (b - a) * ((acc + l * f) / total).min(1.0);
                    let q = pv(&cv.point_at(u));
                    let e = lerp(&w[0], &w[1], f);
                    chk!(dist(&q, &e) <= 1e-9 * sc, "polyline-points", "at {u}: {q:?}, must be {e:?}");
                }
                acc += l;
            }
            let l = must!(cv.try_length(), "length");
            chk!((l - total).abs() <= 1e-9 * total, "polyline-length", "length {l}, must be {total}");
            c.ev("polylines", 1);
            Ok(())
        }};
    }
    if dim == 2 {
        go!(NurbsCurve2D<f64>, p2)
    } else {
        go!(NurbsCurve3D<f64>, p3)
    }
}

/// curves whose speed stays clear of zero and is resolved by moderate quadrature
fn length_spec(c: &mut Ctx, dim: usize, styles: &[KS]) -> Spec {
    let r = &mut c.rng;
    let style = *r.pick(styles);
    let p = r.int(1, 5);
    let n = if style == KS::Bezier { p + 1 } else { p + 1 + r.int(1, 7) };
    let (a, len) = domain(r);
    let k = knots(r, p, n, style, a, len);
    let sc = *r.pick(&[0.5, 3.0, 30.0, 1e-3, 1e-6]);
    // progress along x keeps the speed positive
    let g: Vec<f64> = (0..n).map(|i| if p == 0 { 0.0 } else { ((1..=p).map(|j| k[i + j]).sum::<f64>() / p as f64 - a) / len * n as f64 }).collect();
    let pts: Vec<V> = g.iter().map(|x| {
        let mut v = vec![x * sc];
        for _ in 1..dim { v.push(r.range(-0.7, 0.7) * sc); }
        v
    }).collect();
    let ws = if r.bool(0.5) { W::One } else { W::Mild };
    let w: Vec<f64> = (0..n).map(|_| match ws { W::One => 1.0, _ => r.range(0.7, 1.5) }).collect();
    let s = Spec { p, knots: k, pts, w, style, rational: !matches!(ws, W::One) };
    c.describe(s.desc());
    let sig = s.sig();
    c.shape(&[sig]);
    s
}
/// error allowed for a quadrature of fixed order per span
fn qtol(rc: &RC, a: f64, b: f64) -> f64 {
    let mut e = 0.0;
    let mut tot = 0.0;
    for w in rc.breaks().windows(2) {
        let (l, h) = (w[0].max(a), w[1].min(b));
        if h <= l { continue; }
        let s = span_of(&rc.k, rc.p, 0.5 * (w[0] + w[1]));
        let f = |u: f64| norm(&rc.ders_in(s, u)[1]);
        let full = adaptive(&f, l, h, 0);
        e += (gauss16(&f, l, h) - full).abs();
        // quadrature over part of the span is not better than over all of it
        e += (gauss16(&f, w[0], w[1]) - adaptive(&f, w[0], w[1], 0)).abs();
        tot += full;
    }
    4.0 * e + 1e-8 * tot
}

fn c14_length(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = length_spec(c, dim, &ALL_KS);
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let want = rc.length(a, b);
        let tol = qtol(&rc, a, b);
        let l = must!(cv.try_length(), "length");
        c.err("length_rel_error", (l - want).abs() / want);
        chk!((l - want).abs() <= tol, "length", "length {l}, true arc length {want} (tol {tol:.2e})");
        let li = must!(cv.inverse().try_length(), "length-inverse");
        chk!((li - l).abs() <= tol, "length-inverse", "inverse has length {li}, curve {l}");
        let mut nc = cv.clone();
        nc.normalize_knots();
        let ln = must!(nc.try_length(), "length-normalised");
        chk!((ln - l).abs() <= tol, "length-normalised", "normalised has length {ln}, curve {l}");
        let t = a + (b - a) * c.rng.range(0.05, 0.95);
        let (x, y) = must!(cv.try_split(t), "split");
        let (lx, ly) = (must!(x.try_length(), "length-part"), must!(y.try_length(), "length-part"));
        chk!((lx + ly - l).abs() <= 3.0 * tol + 1e-8 * l, "length-additive", "parts {lx} + {ly} != {l} split at {t}");
        c.ev("lengths", 5);
        Ok(())
    })
}

fn c14_param(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = length_spec(c, dim, &ALL_KS);
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let total = rc.length(a, b);
        let qt = qtol(&rc, a, b);
        for _ in 0..4 {
            let f = *c.rng.pick(&[0.0, 1.0, 0.5, -1.0]);
            let want = total * if f < 0.0 { c.rng.unit() } else { f };
            let want = if f == 1.0 { want - qt - 1e-9 * total } else { want };
            let tol = *c.rng.pick(&[None, Some(1e-3), Some(1e-6), Some(1e-9)]);
            let u = must!(cv.try_parameter_at_length(want, tol), "parameter-at-length");
            chk!(u >= a - 1e-12 * (b - a) && u <= b + 1e-12 * (b - a), "param-domain", "parameter {u} outside {:?}", (a, b));
            let got = rc.length(a, u);
            let t = tol.unwrap_or(1e-4);
            c.err("parameter_arc_error_over_tolerance", (got - want).abs() / t);
            chk!((got - want).abs() <= t + qt, "param-at-length", "the parameter reported for length {want} is {u}, at arc length {got} (tolerance {t})");
            c.ev("params_at_length", 1);
        }
        chk!(cv.try_parameter_at_length(total * 1.05, None).is_err(), "param-too-long", "a length beyond the end was accepted");
        Ok(())
    })
}

fn c14_divide(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = length_spec(c, dim, &ALL_KS);
    let bycount = c.rng.bool(0.5);
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let total = rc.length(a, b);
        let qt = qtol(&rc, a, b);
        let (step, n) = if bycount {
            let n = c.rng.int(1, 12);
            (total / n as f64, n)
        } else {
            let st = total * c.rng.range(0.07, 0.97);
            let n = (total / st).floor() as usize;
            // keep clear of the fencepost
            if (total / st - (total / st).round()).abs() * st < 1e-4 * total { return Err(Stop::Skip("fencepost")) }
            (st, n)
        };
        let d = format!("{} | divide bycount={bycount} step={step} n={n}", s.desc());
        c.describe(d);
        let tol = 2.5e-3 * step.min(1.0) + qt * 2.0;
        if step < 20.0 * tol { return Err(Stop::Skip("step below the accuracy of the reference")) }
        let r = if bycount { must!(cv.try_divide_by_count(n), "divide-by-count") } else { must!(cv.try_divide_by_length(step), "divide-by-length") };
        let k = if bycount { "divide-count" } else { "divide-length-count" };
        chk!(r.len() == n + 1, k, "{} samples, expected {}", r.len(), n + 1);
        chk!((r[0].parameter() - a).abs() <= 1e-12 * (1.0 + a.abs()), "divide-start", "first parameter {} is not the domain start {a}", r[0].parameter());
        for (i, x) in r.iter().enumerate() {
            let got = rc.length(a, x.parameter().clamp(a, b));
            let want = step * i as f64;
            chk!(x.parameter() >= a - 1e-9 && x.parameter() <= b + 1e-9 * (1.0 + b.abs()), "divide-domain", "parameter {} outside the domain", x.parameter());
            chk!((x.length() - want).abs() <= qt * 2.0 + 1e-8 * total, "divide-lengths", "sample {i} reports length {} must be {want}", x.length());
            chk!((got - want).abs() <= tol, "divide-params", "sample {i} at parameter {} has arc length {got}, must be {want}", x.parameter());
            if i > 0 {
                chk!(x.parameter() > r[i - 1].parameter(), "divide-order", "parameters not increasing: {} after {}", x.parameter(), r[i - 1].parameter());
            }
            c.ev("division_samples", 1);
        }
        if bycount {
            let e = rc.length(r[n].parameter().clamp(a, b), b);
            chk!(e <= tol, "divide-end", "last sample is {e} short of the end");
        }
        Ok(())
    })
}
fn c14_errors(c: &mut Ctx) -> R {
    let s = length_spec(c, 2, &CLAMPED_KS);
    let cv = s.c2();
    let l = must!(cv.try_length(), "length");
    chk!(cv.try_divide_by_length(0.0).is_err() && cv.try_divide_by_length(-l).is_err(), "divide-nonpositive", "non-positive length accepted");
    chk!(cv.try_divide_by_length(l * 1.2).is_err(), "divide-too-long", "length beyond the curve accepted");
    // a tolerance below the resolution of the arithmetic must still terminate
    let u = must!(cv.try_parameter_at_length(l * c.rng.range(0.1, 0.9), Some(0.0)), "param-zero-tolerance");
    chk!(u.is_finite(), "param-zero-tolerance", "{u}");
    c.ev("length_errors", 4);
    Ok(())
}

#[allow(unused)]
fn _t(_: Point2<f64>, _: Point3<f64>) {}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "random/walk/ring point sequences (distinct neighbours, several scales/offsets), 2D/3D, degree 1-6; a case is non-trivial when the interpolation system was solved and every point located on the result; distinct = (degree, count, dimension, style)",
            loads: vec![
                Workload { name: "open", f: c11_open, quick: 24000, thorough: 120000 },
                Workload { name: "periodic", f: c11_periodic, quick: 24000, thorough: 120000 },
            ] },
        Prop { id: "C12", rule: "random control polygons, degree 1-6, 2D/3D; distinct = (degree, count, dimension)",
            loads: vec![Workload { name: "periodic", f: c12_periodic, quick: 24000, thorough: 120000 }] },
        Prop { id: "C13", rule: "circles, ellipses, arcs, elliptic arcs (all angle ranges up to a full turn, negative and multi-turn start angles, orthonormal axes of any orientation) and polylines; distinct = (kind, dimension, sweep octant, start octant, aspect)",
            loads: vec![
                Workload { name: "conic", f: c13_conic, quick: 24000, thorough: 120000 },
                Workload { name: "polyline", f: c13_polyline, quick: 12000, thorough: 60000 },
            ] },
        Prop { id: "C14", rule: "regular curves (speed bounded away from 0), clamped and unclamped, rational and not; oracle: adaptive Gauss-Legendre arc length; distinct = knot structure signature",
            loads: vec![
                Workload { name: "length", f: c14_length, quick: 4000, thorough: 30000 },
                Workload { name: "param", f: c14_param, quick: 4000, thorough: 30000 },
                Workload { name: "divide", f: c14_divide, quick: 4000, thorough: 30000 },
                Workload { name: "errors", f: c14_errors, quick: 800, thorough: 4000 },
            ] },
    ]
}
