//! C35 (frames along curves) and C37 (geometric primitives).
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{Const, Point2, Point3, Vector2, Vector3};

fn c35(c: &mut Ctx) -> R {
    let kind = c.rng.int(0, 7);
    let sc = *c.rng.pick(&[1e-3, 1.0, 1.0, 20.0, 1e4]);
    let (x, y, z) = if c.rng.bool(0.3) { (vec![1.0, 0.0, 0.0], vec![0.0, 1.0, 0.0], vec![0.0, 0.0, 1.0]) } else { frame3(&mut c.rng) };
    let at = |a: f64, b: f64, h: f64| p3(&mul(&add(&add(&mul(&x, a), &mul(&y, b)), &mul(&z, h)), sc));
    let cv: NurbsCurve3D<f64> = match kind {
        0 | 1 => {
            let w = *c.rng.pick(&[W::One, W::Mild]);
            spec_in(c, &SpecOpt { dim: 3, pmin: 2, pmax: 5, extra: 6, w: Some(w), ..Default::default() }).c3()
        }
        2 => {
            // straight, at any speed
            let n = c.rng.int(2, 7);
            let p = c.rng.int(1, (n - 1).min(4));
            let mut s = 0.0;
            let pts: Vec<_> = (0..n)
                .map(|_| {
                    s += c.rng.range(0.1, 2.0);
                    at(s, 0.0, 0.0)
                })
                .collect();
            let ks = knots(&mut c.rng, p, n, KS::ClampedUniform, 0.0, 1.0);
            must!(NurbsCurve3D::try_new(p, pts.iter().map(|p| p.to_homogeneous().into()).collect(), ks), "try_new")
        }
        3 => {
            // straight, bent one way, straight, bent the other way
            let h = c.rng.range(0.2, 2.0);
            let q = [(0., 0.), (1., 0.), (2., 0.), (3., 0.), (4., h), (5., h), (6., h), (7., h), (8., 0.), (9., 0.), (10., 0.)];
            let p = c.rng.int(2, 3);
            let ks = knots(&mut c.rng, p, q.len(), KS::ClampedUniform, 0.0, 1.0);
            must!(NurbsCurve3D::try_new(p, q.iter().map(|p| at(p.0, p.1, 0.0).to_homogeneous().into()).collect(), ks), "try_new")
        }
        4 => {
            let n = c.rng.int(8, 24);
            let (turn, rise) = (c.rng.range(0.2, 1.2), c.rng.range(-1.0, 1.0));
            let pts: Vec<_> = (0..n).map(|i| i as f64 * turn).map(|a| at(a.cos(), a.sin(), a * rise)).collect();
            must!(NurbsCurve3D::try_interpolate(&pts, 3), "interpolate")
        }
        5 => must!(NurbsCurve3D::try_circle(&at(1.0, 2.0, 0.5), &v3(&x), &v3(&y), sc * c.rng.range(0.5, 2.0)), "circle"),
        6 => {
            let n = c.rng.int(2, 6);
            let pts: Vec<_> = (0..n).map(|i| at(i as f64, c.rng.range(-1.0, 1.0), c.rng.range(-1.0, 1.0))).collect();
            NurbsCurve3D::polyline(&pts, c.rng.bool(0.5))
        }
        _ => {
            // almost straight
            let n = c.rng.int(4, 9);
            let e = 10f64.powf(c.rng.range(-15.0, -3.0));
            let pts: Vec<_> = (0..n).map(|i| at(i as f64, c.rng.range(-e, e), c.rng.range(-e, e))).collect();
            let ks = knots(&mut c.rng, 3, n, KS::ClampedUniform, 0.0, 1.0);
            must!(NurbsCurve3D::try_new(3, pts.iter().map(|p| p.to_homogeneous().into()).collect(), ks), "try_new")
        }
    };
    let rc = RC::of(&cv);
    let (a, b) = rc.dom();
    let n = match c.rng.int(0, 5) {
        0 => 1,
        1 => 2,
        2 if c.thorough || c.rng.bool(0.2) => 3000,
        _ => c.rng.int(3, 80),
    };
    let mut ts: Vec<f64> = match c.rng.int(0, 3) {
        0 => (0..n).map(|i| a + (b - a) * i as f64 / (n.max(2) - 1) as f64).map(|t| t.min(b)).collect(),
        1 => rc.breaks().iter().copied().flat_map(|k| vec![k; c.rng.int(1, 2)]).collect(),
        _ => (0..n).map(|_| c.rng.range(a, b)).collect(),
    };
    if c.rng.bool(0.8) {
        ts.sort_by(|x, y| x.total_cmp(y));
        if c.rng.bool(0.2) {
            ts.reverse();
        }
    }
    c.describe(format!("kind {kind} {} p={} knots={:?} pts={:?} parameters {}: {:?}", c.desc, rc.p, rc.k, rc.c, ts.len(), &ts[..ts.len().min(12)]));
    if c.rng.bool(0.02) {
        chk!(cv.compute_frenet_frames(&[]).is_empty(), "frames-none", "frames without parameters");
    }
    // regular at every parameter
    let top = (0..=200).map(|i| norm(&rc.ders(a + (b - a) * i as f64 / 200.0)[1])).fold(0.0, f64::max);
    if ts.iter().any(|t| norm(&rc.ders(*t)[1]) < 1e-4 * top) {
        return Err(Stop::Skip("a parameter with a vanishing derivative"));
    }
    let fr = cv.compute_frenet_frames(&ts);
    chk!(fr.len() == ts.len(), "frames-count", "{} frames for {} parameters", fr.len(), ts.len());
    let kink = |t: f64| rc.breaks()[1..rc.breaks().len() - 1].iter().any(|k| (k - t).abs() <= 1e-9 * (b - a)) && rc.k.iter().filter(|k| (**k - t).abs() <= 1e-9 * (b - a)).count() >= rc.p;
    for (i, (f, t)) in fr.iter().zip(&ts).enumerate() {
        let d = rc.ders(*t);
        let (p, tg, n, bn) = (pv(f.position()), vv(f.tangent()), vv(f.normal()), vv(f.binormal()));
        chk!(finite(&p) && finite(&tg) && finite(&n) && finite(&bn), "frame-nan", "frame {i} at {t}: {f:?}");
        chk!(dist(&p, &d[0]) <= 1e-9 * rc.scale() * rc.wratio(), "frame-position", "frame {i} at {p:?}, the curve at {t} is {:?}", d[0]);
        if !kink(*t) {
            let e = dist(&tg, &unit(&d[1]));
            c.err("tangent", e);
            chk!(e <= 1e-6, "frame-tangent", "frame {i} at {t} has tangent {tg:?} instead of {:?}", unit(&d[1]));
        }
        for (name, v) in [("tangent", &tg), ("normal", &n), ("binormal", &bn)] {
            c.err("unit length", (norm(v) - 1.0).abs());
            chk!((norm(v) - 1.0).abs() <= 1e-6, "frame-unit", "{name} {v:?} of frame {i} at {t} has length {}", norm(v));
        }
        let o = dot(&tg, &n).abs().max(dot(&tg, &bn).abs()).max(dot(&n, &bn).abs());
        c.err("orthogonality", o);
        chk!(o <= 1e-6, "frame-orthogonal", "frame {i} of {} at {t} is not orthogonal ({o}): {tg:?} {n:?} {bn:?}", fr.len());
        chk!(dist(&cross(&tg, &n), &bn) <= 1e-5, "frame-handed", "frame {i} at {t} is not right-handed: {tg:?} {n:?} {bn:?}");
        let same = f.cast::<f64>();
        chk!(same.position() == f.position() && same.tangent() == f.tangent() && same.normal() == f.normal() && same.binormal() == f.binormal(), "frame-cast", "{f:?} cast to its own type is {same:?}");
        let m = f.matrix();
        let (ez, ey, eo) = (m * Vector3::z(), m * Vector3::y(), m * Point3::origin());
        chk!(dist(&vv(&ez), &tg) <= 1e-6 && dist(&vv(&ey), &n) <= 1e-5 && dist(&pv(&eo), &p) <= 1e-12 * rc.scale().max(norm(&p)), "frame-matrix", "matrix {m:?} of frame {f:?}");
        if i > 0 {
            let b0 = vv(fr[i - 1].binormal());
            let (t0, n0) = (vv(fr[i - 1].tangent()), vv(fr[i - 1].normal()));
            let ang = |a: &V, b: &V| dist(a, b).min(2.0) / 2.0;
            let (th, tn) = (2.0 * ang(&t0, &tg).asin(), 2.0 * ang(&n0, &n).asin());
            // a frame that does not spin turns its normal no more than its tangent
            if th < 3.0 {
                c.err("normal turns beyond its tangent", (tn - th).max(0.0));
                chk!(tn <= th * 1.0001 + 1e-6, "frame-flip", "between the parameters {} and {t} the tangent turns by {th} but the normal by {tn}", ts[i - 1]);
                // the rotation of the whole frame: cos = (trace - 1) / 2
                let tr = dot(&t0, &tg) + dot(&n0, &n) + dot(&b0, &bn);
                let whole = ((tr - 1.0) / 2.0).clamp(-1.0, 1.0).acos();
                c.err("frame turns beyond its tangent", (whole - th).max(0.0));
                chk!(whole <= th * 1.0001 + 1e-5, "frame-spin", "between the parameters {} and {t} the tangent turns by {th} but the frame by {whole}", ts[i - 1]);
            }
        }
        c.ev("frames", 1);
    }
    c.shape(&[kind as u64, fr.len() as u64, rc.p as u64, rc.c.len() as u64]);
    Ok(())
}

/// exact sign of twice the area for coordinates that are multiples of 2^-52 below 8
fn orient(p: [f64; 2], q: [f64; 2], r: [f64; 2]) -> i32 {
    let i = |x: f64| (x * (1u64 << 52) as f64) as i128;
    let d = (i(q[0]) - i(p[0])) * (i(r[1]) - i(p[1])) - (i(q[1]) - i(p[1])) * (i(r[0]) - i(p[0]));
    d.signum() as i32
}
fn sign(o: Orientation) -> i32 {
    match o {
        Orientation::CounterClockwise => 1,
        Orientation::Clockwise => -1,
        Orientation::Collinear => 0,
    }
}
fn ulp(c: &mut Ctx) -> f64 {
    c.rng.int(0, 6) as f64 * 2f64.powi(-52) * c.rng.sign()
}
/// points in [1,2]^2 on or within a few rounding units of a line
fn near_line(c: &mut Ctx, n: usize) -> Vec<[f64; 2]> {
    let g = 2f64.powi(*c.rng.pick(&[4, 8, 20, 30]));
    let snap = |x: f64| 1.0 + (x * g).round() / g;
    let (a, b) = ([snap(c.rng.unit()), snap(c.rng.unit())], [snap(c.rng.unit()), snap(c.rng.unit())]);
    (0..n)
        .map(|_| {
            if c.rng.bool(0.3) {
                return [snap(c.rng.unit()), snap(c.rng.unit())];
            }
            let t = c.rng.int(0, 16) as f64 / 16.0;
            let q = [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t];
            let s = |x: f64| (x * 2f64.powi(52)).round() / 2f64.powi(52);
            [s(q[0] + ulp(c)), s(q[1] + ulp(c))]
        })
        .collect()
}

fn c37_predicates(c: &mut Ctx) -> R {
    let v = near_line(c, 4);
    c.describe(format!("{v:?}"));
    let p: Vec<Point2<f64>> = v.iter().map(|q| Point2::new(q[0], q[1])).collect();
    for (i, j, k) in [(0, 1, 2), (1, 2, 3), (0, 3, 1)] {
        let want = orient(v[i], v[j], v[k]);
        let got = sign(orientation(&p[i], &p[j], &p[k]));
        c.ev(match want { 0 => "collinear triples", 1 => "left turns", _ => "right turns" }, 1);
        chk!(got == want, "orientation", "orientation of {:?} {:?} {:?} is {got}, exactly {want}", v[i], v[j], v[k]);
        chk!(sign(orientation(&p[j], &p[i], &p[k])) == -want && sign(orientation(&p[j], &p[k], &p[i])) == want, "orientation-symmetry", "orientation of permuted {:?} {:?} {:?}", v[i], v[j], v[k]);
    }
    // segments: crossing or touching unless they overlap along a common line
    let o = [orient(v[0], v[1], v[2]), orient(v[0], v[1], v[3]), orient(v[2], v[3], v[0]), orient(v[2], v[3], v[1])];
    if v[0] == v[1] || v[2] == v[3] {
        return Ok(());
    }
    let (a, b) = (Line::new(p[0], p[1]), Line::new(p[2], p[3]));
    let got = a.intersects(&b);
    chk!(got == b.intersects(&a) && got == Line::new(p[1], p[0]).intersects(&b), "segment-symmetry", "{v:?}: {got} the other way round {}", b.intersects(&a));
    if o != [0; 4] {
        let want = o[0] * o[1] <= 0 && o[2] * o[3] <= 0;
        c.ev(if want { "segments that meet" } else { "segments that do not meet" }, 1);
        chk!(got == want, "segment-intersects", "segments {:?}-{:?} and {:?}-{:?}: {got}, exactly {want} {o:?}", v[0], v[1], v[2], v[3]);
    } else {
        chk!(!got || { let on = |q: &[f64; 2], r: &[f64; 2], s: &[f64; 2]| (0..2).all(|i| s[i] >= q[i].min(r[i]) && s[i] <= q[i].max(r[i])); on(&v[0], &v[1], &v[2]) || on(&v[0], &v[1], &v[3]) || on(&v[2], &v[3], &v[0]) }, "segment-collinear", "collinear segments {v:?} apart are said to meet");
        c.ev("collinear segments", 1);
    }
    c.shape(&[(o[0] + 1) as u64, (o[1] + 1) as u64, (o[2] + 1) as u64, (o[3] + 1) as u64]);
    Ok(())
}

fn c37_polygon(c: &mut Ctx) -> R {
    // any closed polygon on a lattice, also one crossing itself
    let n = c.rng.int(3, 14);
    let m = c.rng.int(2, 8);
    let f = 2f64.powi(if c.rng.bool(0.5) { c.rng.int(0, 6) as i32 - 3 } else { c.rng.int(0, 120) as i32 - 60 });
    let v: Vec<[i128; 2]> = (0..n).map(|_| [2 * c.rng.int(0, m) as i128, 2 * c.rng.int(0, m) as i128]).collect();
    let close = c.rng.bool(0.3);
    let mut pts: Vec<Point2<f64>> = v.iter().map(|p| Point2::new(p[0] as f64 * f, p[1] as f64 * f)).collect();
    if close {
        pts.push(pts[0]);
    }
    c.describe(format!("{v:?} closed {close} times {f}"));
    let b = if c.rng.bool(0.5) { PolygonBoundary::new(pts.clone()) } else { pts.iter().cloned().collect() };
    chk!(*b.vertices() == pts, "polygon-vertices", "the vertices are {:?}", b.vertices());
    for _ in 0..30 {
        let q = [c.rng.int(0, 2 * m + 2) as i128 - 1, c.rng.int(0, 2 * m + 2) as i128 - 1];
        let (mut w, mut on) = (0i32, false);
        for i in 0..n {
            let (a, b) = (v[i], v[(i + 1) % n]);
            let cr = (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]);
            on |= cr == 0 && (0..2).all(|k| q[k] >= a[k].min(b[k]) && q[k] <= a[k].max(b[k]));
            if a[1] <= q[1] && b[1] > q[1] && cr > 0 {
                w += 1;
            }
            if a[1] > q[1] && b[1] <= q[1] && cr < 0 {
                w -= 1;
            }
        }
        let got = must!(b.contains(&Point2::new(q[0] as f64 * f, q[1] as f64 * f), ()), "contains");
        if on {
            c.ev("points on the polygon (either answer)", 1);
            continue;
        }
        c.ev(if w != 0 { "points wound around" } else { "points not wound around" }, 1);
        chk!(got == (w != 0), "polygon-contains", "{q:?} (winding {w}): {got}");
    }
    c.shape(&[n as u64, m as u64]);
    Ok(())
}

fn c37_measures(c: &mut Ctx) -> R {
    // binomials
    let n = c.rng.int(0, 60);
    let mut memo = Binomial::<f64>::new();
    for _ in 0..8 {
        let m = if c.rng.bool(0.5) { n } else { c.rng.int(0, n) };
        let k = c.rng.int(0, m + 2);
        let want: u128 = if k > m { 0 } else { (0..k as u128).fold(1u128, |r, i| r * (m as u128 - i) / (i + 1)) };
        for (name, got) in [("binomial", binomial(m, k)), ("Binomial::get", memo.get(m, k))] {
            chk!((got - want as f64).abs() <= 1e-14 * want as f64 * (want > (1 << 50)) as u8 as f64 * 64.0, "binomial", "{name}({m},{k}) = {got}, exactly {want}");
        }
        c.ev("binomials", 1);
    }
    // closest point on a segment
    let sc = 10f64.powf(if c.rng.bool(0.3) { c.rng.range(-12.0, -6.0) } else { c.rng.range(-6.0, 6.0) });
    let dim3 = c.rng.bool(0.5);
    let mut r = |c: &mut Ctx| -> V { (0..if dim3 { 3 } else { 2 }).map(|_| sc * c.rng.range(-1.0, 1.0)).collect() };
    let (a, b, q) = (r(c), r(c), r(c));
    let a = if c.rng.bool(0.1) { b.clone() } else { a };
    let q = match c.rng.int(0, 3) {
        0 => add(&a, &mul(&sub(&b, &a), c.rng.range(-0.5, 1.5))),
        1 => a.clone(),
        _ => q,
    };
    let (u0, u1) = (c.rng.range(-3.0, 3.0), c.rng.range(3.0, 9.0));
    c.describe(format!("segment {a:?}-{b:?} query {q:?} parameters {u0}..{u1}"));
    let (u, p) = if dim3 {
        let (u, p) = segment_closest_point(&p3(&q), &p3(&a), &p3(&b), u0, u1);
        (u, pv(&p))
    } else {
        let (u, p) = segment_closest_point(&p2(&q), &p2(&a), &p2(&b), u0, u1);
        (u, pv(&p))
    };
    let d = sub(&b, &a);
    let t = if dot(&d, &d) > 0.0 { (dot(&sub(&q, &a), &d) / dot(&d, &d)).clamp(0.0, 1.0) } else { 0.0 };
    let w = add(&a, &mul(&d, t));
    c.err("segment closest point/scale", (dist(&p, &q) - dist(&w, &q)).abs() / sc);
    chk!((dist(&p, &q) - dist(&w, &q)).abs() <= 1e-9 * sc && dist(&p, &w) <= 1e-9 * sc, "segment-closest", "{p:?} instead of {w:?}");
    if norm(&d) > 1e-9 * sc {
        chk!((u - (u0 + (u1 - u0) * t)).abs() <= 1e-6, "segment-parameter", "parameter {u} instead of {}", u0 + (u1 - u0) * t);
    }
    c.ev("segment projections", 1);
    // flatness of three points
    let (fa, fb, fc) = (r(c), r(c), r(c));
    if !dim3 {
        let ar = (fb[0] - fa[0]) * (fc[1] - fa[1]) - (fb[1] - fa[1]) * (fc[0] - fa[0]);
        for g in [0.5, 2.0] {
            let got = three_points_are_flat(&p2(&fa), &p2(&fb), &p2(&fc), ar.abs() * g);
            chk!(got == (g > 1.0), "flat", "points {fa:?} {fb:?} {fc:?} of area {} at tolerance {}: {got}", ar.abs(), ar.abs() * g);
        }
    }
    // rays
    let (o1, d1, o2, d2) = (r(c), r(c), r(c), r(c));
    let f = 10f64.powf(c.rng.range(-6.0, 6.0));
    let par = c.rng.bool(0.3);
    let d2 = mul(&if par { d1.clone() } else { d2 }, f);
    let sn = if dim3 { norm(&cross(&unit(&d1), &unit(&d2))) } else { let (a, b) = (unit(&d1), unit(&d2)); (a[0] * b[1] - a[1] * b[0]).abs() };
    let hit = if dim3 {
        Ray::new(p3(&o1), v3(&d1)).find_intersection(&Ray::new(p3(&o2), v3(&d2))).is_some()
    } else {
        Ray::new(p2(&o1), v2(&d1)).find_intersection(&Ray::new(p2(&o2), v2(&d2))).is_some()
    };
    if sn > 1e-5 {
        c.ev("rays that are not parallel", 1);
        chk!(hit, "ray-missed", "rays {o1:?}+{d1:?}t and {o2:?}+{d2:?}t are taken as parallel");
    } else if sn < 1e-12 && par {
        c.ev("parallel rays", 1);
        chk!(!hit, "ray-parallel", "parallel rays {d1:?} {d2:?} are said to meet");
    }
    let ray = Ray::new(p3(&[1.0, 2.0, 3.0]), v3(&[f, 0.5, -f]));
    let t = c.rng.range(-3.0, 3.0);
    chk!(dist(&pv(&ray.point_at(t)), &[1.0 + f * t, 2.0 + 0.5 * t, 3.0 - f * t]) <= 1e-12 * (3.0 + f * 3.0), "ray-point", "point at {t}");
    // mesh areas
    let nv = c.rng.int(3, 9);
    let vs: Vec<V> = (0..nv).map(|_| r(c)).collect();
    let mut faces = |c: &mut Ctx| -> Vec<[usize; 3]> { (0..c.rng.int(0, 6)).map(|_| [c.rng.int(0, nv - 1), c.rng.int(0, nv - 1), c.rng.int(0, nv - 1)]).collect() };
    let (f1, f2) = (faces(c), faces(c));
    let tri = |f: &[usize; 3]| {
        let (a, b) = (sub(&vs[f[1]], &vs[f[0]]), sub(&vs[f[2]], &vs[f[0]]));
        if dim3 { norm(&cross(&a, &b)) / 2.0 } else { (a[0] * b[1] - a[1] * b[0]).abs() / 2.0 }
    };
    let want: f64 = f1.iter().chain(&f2).map(tri).sum();
    let (got, nf, ni) = if dim3 {
        let v: Vec<_> = vs.iter().map(|p| p3(p)).collect();
        let m = PolygonMesh::<f64, Const<3>>::new(v.clone(), f1.clone()) + PolygonMesh::new(v, f2.clone());
        (m.area(), m.faces().len(), m.faces()[f1.len()..].iter().all(|f| f.iter().all(|i| *i >= nv && *i < 2 * nv)))
    } else {
        let v: Vec<_> = vs.iter().map(|p| p2(p)).collect();
        let m: PolygonMesh<f64, Const<2>> = vec![PolygonMesh::new(v.clone(), f1.clone()), PolygonMesh::new(v, f2.clone())].into_iter().sum();
        (m.area(), m.faces().len(), m.faces()[f1.len()..].iter().all(|f| f.iter().all(|i| *i >= nv && *i < 2 * nv)))
    };
    chk!((got - want).abs() <= 1e-9 * sc * sc && nf == f1.len() + f2.len() && ni, "mesh-area", "merged mesh of {f1:?} and {f2:?} has area {got} instead of {want}");
    c.ev("mesh areas", 1);
    // end points
    let s = spec(&mut c.rng, &SpecOpt { dim: 2, ..Default::default() });
    let cv = s.c2();
    let rc = RC::of(&cv);
    let (e0, e1) = cv.end_points();
    chk!(dist(&pv(&e0), &rc.at(rc.dom().0)) <= 1e-9 * rc.scale() * rc.wratio() && dist(&pv(&e1), &rc.at(rc.dom().1)) <= 1e-9 * rc.scale() * rc.wratio(), "end-points", "end points {e0:?} {e1:?}");
    c.shape(&[n as u64, nv as u64, dim3 as u64, par as u64]);
    let _ = Vector2::<f64>::zeros();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C35", rule: "distinct (curve shape; number of frames) combinations", loads: vec![Workload { name: "frames", f: c35, quick: 12000, thorough: 60000 }] },
        Prop {
            id: "C37",
            rule: "distinct (configuration signs; sizes) combinations",
            loads: vec![
                Workload { name: "predicates", f: c37_predicates, quick: 30000, thorough: 1000000 },
                Workload { name: "polygon", f: c37_polygon, quick: 4500, thorough: 100000 },
                Workload { name: "measures", f: c37_measures, quick: 4500, thorough: 100000 },
            ],
        },
    ]
}
