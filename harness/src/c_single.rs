//! C39: the operations in single precision. The inputs are exactly
//! representable in f32; every result is widened and judged by the f64
//! reference, to a tolerance single precision can meet.
use crate::c_region::{area, polygon, polyd, polyin};
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, viol};
use curvo::prelude::operation::BooleanOperation as Op;
use curvo::prelude::*;
use nalgebra::{Const, Matrix4, Point2, Point3, Vector2, Vector3};

type C2 = NurbsCurve2D<f32>;
type C3 = NurbsCurve3D<f32>;
type S3 = NurbsSurface3D<f32>;

fn r32(x: f64) -> f64 {
    x as f32 as f64
}
fn q3(v: &[f64]) -> Point3<f32> {
    Point3::new(v[0] as f32, v[1] as f32, v[2] as f32)
}
fn q2(v: &[f64]) -> Point2<f32> {
    Point2::new(v[0] as f32, v[1] as f32)
}
fn d3(v: &[f64]) -> Vector3<f32> {
    Vector3::new(v[0] as f32, v[1] as f32, v[2] as f32)
}
/// a curve whose knot spans single precision resolves well
fn single(c: &mut Ctx, pmax: usize) -> Result<(C3, RC), Stop> {
    let w = if c.rng.bool(0.5) { W::One } else { W::Mild };
    let s = spec_in(c, &SpecOpt { dim: 3, pmax, extra: 5, w: Some(w), ..Default::default() });
    let cv: C3 = s.c3().cast();
    let rc = RC::of(&cv);
    let (a, b) = rc.dom();
    if minspan(&rc.breaks()) < 2e-2 * a.abs().max(b.abs()) {
        return Err(Stop::Skip("span below single precision"));
    }
    Ok((cv, rc))
}
fn same(what: &str, got: &C3, want: &RC, (a, b): (f64, f64), tol: f64) -> R {
    let g = RC::of(got);
    let (s, e) = g.dom();
    for i in 0..=16 {
        let r = i as f64 / 16.0;
        let (x, y) = (g.at(s + (e - s) * r), want.at(a + (b - a) * r));
        chk!(dist(&x, &y) <= tol, what, "{what}: {x:?} at the fraction {r}, the curve is at {y:?}");
    }
    Ok(())
}
/// the same parameters
fn unchanged(what: &str, got: &C3, want: &RC, tol: f64) -> R {
    let g = RC::of(got);
    let d = want.dom();
    for u in want.params(3) {
        let u = u.clamp(d.0, d.1);
        let (x, y) = (g.at(u), want.at(u));
        chk!(dist(&x, &y) <= tol, what, "{what}: {x:?} at {u}, the curve is at {y:?}");
    }
    Ok(())
}

fn shape(c: &mut Ctx) -> R {
    let (cv, rc) = single(c, 4)?;
    let (a, b) = rc.dom();
    let sc = rc.scale();
    let tol = 1e-4 * sc;
    let u = r32(a + (b - a) * c.rng.range(0.1, 0.9));
    let u32 = u as f32;
    for u in rc.params(2) {
        let u = r32(u.clamp(a, b));
        if u < a || u > b {
            continue;
        }
        chk!(dist(&pv(&cv.point_at(u as f32)), &rc.at(u)) <= tol, "point", "point_at({u}) = {:?}, definition {:?}", cv.point_at(u as f32), rc.at(u));
    }
    let (l, r) = must!(cv.try_split(u32), "try_split");
    same("split", &l, &rc, (a, u), tol)?;
    same("split", &r, &rc, (u, b), tol)?;
    let (s, e) = (r32(a + (b - a) * c.rng.range(0.05, 0.4)), r32(a + (b - a) * c.rng.range(0.5, 0.95)));
    let t = must!(cv.try_trim_range((s as f32, e as f32)), "try_trim_range");
    chk!(t.len() == 1, "trim", "{} pieces of ({s}, {e})", t.len());
    same("trim", &t[0], &rc, (s, e), tol)?;
    let mut x = cv.clone();
    must!(x.try_refine_knot(vec![u32, (0.5 * (u + b)) as f32]), "try_refine_knot");
    unchanged("refine", &x, &rc, tol)?;
    let mut x = cv.clone();
    must!(x.try_add_knot(u32), "try_add_knot");
    unchanged("add knot", &x, &rc, tol)?;
    if !rc.k.contains(&u) {
        let n = must!(x.try_remove_knot(u32, Some((1e-3 * sc) as f32)), "try_remove_knot");
        chk!(n == 1, "remove knot", "the knot {u} just inserted was removed {n} times");
        unchanged("remove knot", &x, &rc, 3e-3 * sc)?;
    }
    let mut x = cv.clone();
    must!(x.try_clamp(), "try_clamp");
    unchanged("clamp", &x, &rc, tol)?;
    let q = rc.p + c.rng.int(1, 2);
    let x = must!(cv.try_elevate_degree(q), "try_elevate_degree");
    chk!(x.degree() == q, "elevate", "degree {} instead of {q}", x.degree());
    same("elevate", &x, &rc, (a, b), 5e-4 * sc)?;
    let segs = must!(cv.try_decompose_bezier_segments(), "try_decompose_bezier_segments");
    let br = rc.breaks();
    chk!(segs.len() == br.len() - 1, "bezier", "{} segments of {} spans", segs.len(), br.len() - 1);
    for (s, w) in segs.iter().zip(br.windows(2)) {
        same("bezier", s, &rc, (w[0], w[1]), tol)?;
    }
    same("inverse", &cv.inverse(), &rc, (b, a), tol)?;
    let len = rc.length(a, b);
    let got = must!(cv.try_length(), "try_length") as f64;
    let euclid = rc.euclid();
    let smooth = adaptive_ok(&rc, &euclid);
    if smooth {
        chk!((got - len).abs() <= 2e-3 * len, "length", "try_length = {got}, adaptive quadrature {len}");
        let want = len * c.rng.range(0.1, 0.9);
        let t = must!(cv.try_parameter_at_length(want as f32, None), "try_parameter_at_length") as f64;
        let l = rc.length(a, t.clamp(a, b));
        chk!((l - want).abs() <= 3e-3 * len, "parameter at length", "{want} of {len} is at {t}, where the length is {l}");
        let n = c.rng.int(2, 6);
        let v = must!(cv.try_divide_by_count(n), "try_divide_by_count");
        chk!(v.len() == n + 1, "divide", "{} divisions by {n}", v.len());
        for (i, x) in v.iter().enumerate() {
            let l = rc.length(a, (x.parameter() as f64).clamp(a, b));
            let w = len * i as f64 / n as f64;
            chk!((l - w).abs() <= 5e-3 * len, "divide", "division {i} of {n} at the length {l} of {len}");
        }
    }
    let bb = BoundingBox::from(&cv);
    for u in rc.params(4) {
        let p = rc.at(u.clamp(a, b));
        for i in 0..3 {
            chk!(p[i] >= bb.min()[i] as f64 - tol && p[i] <= bb.max()[i] as f64 + tol, "box", "{p:?} at {u} outside {bb:?}");
        }
    }
    let tess = cv.tessellate(Some((1e-3 * sc) as f32));
    for p in tess.iter().map(pv) {
        let d = br.windows(2).flat_map(|w| (0..=60).map(|i| w[0] + (w[1] - w[0]) * i as f64 / 60.0).collect::<Vec<_>>()).map(|u| rc.at(u)).collect::<Vec<_>>();
        let m = d.windows(2).map(|w| segd(&p, &w[0], &w[1])).fold(f64::MAX, f64::min);
        chk!(m <= 2e-2 * sc, "tessellate", "{p:?} is {m} away from the curve");
    }
    chk!(tess.len() < 20000, "tessellate", "{} points", tess.len());
    c.ev("curves judged", 1);
    c.ev("tessellated points", tess.len() as u64);
    Ok(())
}
/// twice the signed area of a triangle
fn cross2(a: &[f64], b: &[f64], c: &[f64]) -> f64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn segd(q: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l > 0.0 { (dot(&sub(q, a), &d) / l).clamp(0.0, 1.0) } else { 0.0 };
    dist(q, &add(a, &mul(&d, t)))
}
/// no stretch where the curve nearly stops
fn adaptive_ok(rc: &RC, _e: &[V]) -> bool {
    let (a, b) = rc.dom();
    let mean = rc.length(a, b) / (b - a);
    rc.breaks().windows(2).all(|w| (0..=40).all(|i| norm(&rc.ders(w[0] + (w[1] - w[0]) * (0.001 + 0.998 * i as f64 / 40.0))[1]) > 0.15 * mean))
}

fn make(c: &mut Ctx) -> R {
    let n = c.rng.int(4, 8);
    let p = c.rng.int(1, 3);
    let th = c.rng.range(0.0, 6.0);
    let pts: Vec<V> = (0..n)
        .map(|i| {
            let a = th + 6.2832 * i as f64 / n as f64;
            let r = c.rng.range(4.0, 6.0);
            vec![r32(r * a.cos()), r32(r * a.sin()), r32(c.rng.range(-2.0, 2.0))]
        })
        .collect();
    c.describe(format!("degree {p} through {pts:?}"));
    c.shape(&[n as u64, p as u64]);
    let q: Vec<_> = pts.iter().map(|p| q3(p)).collect();
    let cv = must!(C3::try_interpolate(&q, p), "try_interpolate");
    let on = |what: &str, rc: &RC, p: &V| -> R {
        let (a, b) = rc.dom();
        let mut best = (f64::MAX, a);
        for i in 0..=400 {
            let u = a + (b - a) * i as f64 / 400.0;
            let d = dist(&rc.at(u), p);
            if d < best.0 {
                best = (d, u);
            }
        }
        let mut h = (b - a) / 400.0;
        while h > 1e-7 * (b - a) {
            for u in [best.1 - h, best.1 + h] {
                let u = u.clamp(a, b);
                let d = dist(&rc.at(u), p);
                if d < best.0 {
                    best = (d, u);
                }
            }
            h *= 0.7;
        }
        chk!(best.0 <= 1e-3, what, "{what}: {p:?} is {} away from the curve", best.0);
        Ok(())
    };
    let rc = RC::of(&cv);
    for p in &pts {
        on("interpolate", &rc, p)?;
    }
    chk!(dist(&rc.at(rc.dom().0), &pts[0]) < 1e-4 && dist(&rc.at(rc.dom().1), &pts[n - 1]) < 1e-4, "interpolate", "ends of the interpolation");
    let style = c.rng.pick(&[KnotStyle::Uniform, KnotStyle::Chordal, KnotStyle::Centripetal]).clone();
    let p = if c.rng.bool(0.5) { 1 } else { 3 };
    let cv = must!(C3::try_periodic_interpolate(&q, p, style), "try_periodic_interpolate");
    let rc = RC::of(&cv);
    for p in &pts {
        on("periodic interpolate", &rc, p)?;
    }
    chk!(dist(&rc.at(rc.dom().0), &rc.at(rc.dom().1)) < 1e-3, "periodic interpolate", "the curve does not close");
    let (x, y, _) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| r32(c.rng.range(-10.0, 10.0))).collect();
    let (r0, r1) = (c.rng.range(0.5, 8.0), c.rng.range(0.5, 8.0));
    let (a, s) = (c.rng.range(-3.0, 3.0), c.rng.range(0.1, 6.2));
    c.describe(format!("ellipse arc {o:?} {x:?} {y:?} {r0} {r1} {a} {s}"));
    let cv = must!(C3::try_ellipse_arc(&q3(&o), &(d3(&x) * r0 as f32), &(d3(&y) * r1 as f32), a as f32, (a + s) as f32), "try_ellipse_arc");
    let rc = RC::of(&cv);
    let (ua, ub) = rc.dom();
    for i in 0..=40 {
        let d = sub(&rc.at(ua + (ub - ua) * i as f64 / 40.0), &o);
        let (e, f) = (dot(&d, &x) / r0, dot(&d, &y) / r1);
        chk!((e * e + f * f - 1.0).abs() < 1e-3, "ellipse", "implicit equation {} at step {i}", e * e + f * f);
        for (j, t) in [(0, a), (40, a + s)] {
            if i == j {
                chk!((e - t.cos()).abs() + (f - t.sin()).abs() < 1e-3, "ellipse", "end {i} at ({e}, {f}) instead of the angle {t}");
            }
        }
    }
    let cv = must!(C3::try_circle(&q3(&o), &d3(&x), &d3(&y), r0 as f32), "try_circle");
    let rc = RC::of(&cv);
    for i in 0..=40 {
        let d = dist(&rc.at(rc.dom().0 + (rc.dom().1 - rc.dom().0) * i as f64 / 40.0), &o);
        chk!((d - r0).abs() < 1e-4 * (1.0 + r0), "circle", "radius {d} instead of {r0}");
    }
    chk!(cv.is_closed(), "closed", "a circle is not closed");
    let len = must!(cv.try_length(), "try_length") as f64;
    chk!((len / (2.0 * std::f64::consts::PI * r0) - 1.0).abs() < 1e-3, "circle length", "length {len} of the circle of radius {r0}");
    let v: Vec<f32> = (0..8).map(|i| (rc.dom().0 + (rc.dom().1 - rc.dom().0) * i as f64 / 8.0) as f32).collect();
    for f in cv.compute_frenet_frames(&v) {
        let (t, n, b) = (vv(f.tangent()), vv(f.normal()), vv(f.binormal()));
        for (i, j, w) in [(&t, &t, 1.0), (&n, &n, 1.0), (&b, &b, 1.0), (&t, &n, 0.0), (&t, &b, 0.0), (&n, &b, 0.0)] {
            chk!((dot(i, j) - w).abs() < 1e-3, "frame", "frame {t:?} {n:?} {b:?} is not orthonormal");
        }
    }
    c.ev("curves made", 4);
    Ok(())
}

fn near(c: &mut Ctx) -> R {
    let (cv, rc) = single(c, 3)?;
    let sc = rc.scale();
    let (a, b) = rc.dom();
    let slack = crate::c_near::sag(&rc, cv.control_points().len() * cv.degree());
    for _ in 0..3 {
        let p: V = if c.rng.bool(0.4) {
            rc.at(c.rng.range(a, b)).iter().map(|x| r32(*x)).collect()
        } else {
            (0..3).map(|_| r32(c.rng.range(-12.0, 12.0))).collect()
        };
        let got = must!(cv.find_closest_point(&q3(&p)), "find_closest_point");
        let u = must!(cv.find_closest_parameter(&q3(&p)), "find_closest_parameter") as f64;
        chk!(u >= a && u <= b, "closest domain", "parameter {u} outside ({a}, {b})");
        let d = dist(&pv(&got), &p);
        chk!((d - dist(&rc.at(u), &p)).abs() <= 1e-4 * sc, "closest", "the closest point {got:?} is not at the closest parameter {u}");
        let mut best = f64::MAX;
        for w in rc.breaks().windows(2) {
            for i in 0..=100 {
                best = best.min(dist(&rc.at(w[0] + (w[1] - w[0]) * i as f64 / 100.0), &p));
            }
        }
        chk!(d <= best + 2.0 * slack + 2e-3 * sc, "closest", "distance {d} of {p:?} to {got:?} at {u}, a sample is {best} away");
        c.ev("closest points", 1);
    }
    Ok(())
}

fn surface(c: &mut Ctx) -> R {
    let w = if c.rng.bool(0.5) { W::One } else { W::Mild };
    let s = sspec(c, &SOpt { pmax: 3, extra: 3, height: Some(0.4), w: Some(w), ..Default::default() });
    let sf: S3 = s.s3().cast();
    let rs = RS::of(&sf);
    let ((a, b), (e, f)) = rs.dom();
    if minspan(&rs.ubreaks()) < 2e-2 * a.abs().max(b.abs()) || minspan(&rs.vbreaks()) < 2e-2 * e.abs().max(f.abs()) {
        return Err(Stop::Skip("span below single precision"));
    }
    let sc = rs.scale();
    let tol = 1e-4 * sc;
    let (u, v) = (r32(a + (b - a) * c.rng.range(0.1, 0.9)), r32(e + (f - e) * c.rng.range(0.1, 0.9)));
    for i in 0..=5 {
        for j in 0..=5 {
            let (u, v) = (r32(a + (b - a) * i as f64 / 5.0).clamp(a, b), r32(e + (f - e) * j as f64 / 5.0).clamp(e, f));
            let (x, y) = (pv(&sf.point_at(u as f32, v as f32)), rs.at(u, v));
            chk!(dist(&x, &y) <= tol, "surface point", "{x:?} at ({u}, {v}), definition {y:?}");
        }
    }
    {
        let (_, su, sv) = rs.ders(u, v);
        let n = cross(&su, &sv);
        if norm(&n) > 1e-2 * norm(&su) * norm(&sv) {
            let g = unit(&vv(&sf.normal_at(u as f32, v as f32)));
            chk!(dot(&g, &unit(&n)) > 0.999, "normal", "normal {g:?} at ({u}, {v}) instead of {:?}", unit(&n));
        }
    }
    for (dir, k) in [(UVDirection::U, u), (UVDirection::V, v)] {
        let is_u = matches!(dir, UVDirection::U);
        let at = |r: f64, t: f64| if is_u { rs.at(t, r) } else { rs.at(r, t) };
        let iso = RC::of(&must!(sf.try_isocurve(k as f32, dir), "try_isocurve"));
        let (x, y) = iso.dom();
        for i in 0..=8 {
            let t = x + (y - x) * i as f64 / 8.0;
            chk!(dist(&iso.at(t), &at(t, k)) <= tol, "isocurve", "isocurve at {k}: {:?} at {t}, surface {:?}", iso.at(t), at(t, k));
        }
        let (l, r) = must!(sf.try_split(SplitSurfaceOption::new(k as f32, dir)), "surface try_split");
        let mut x = sf.clone();
        must!(x.try_refine_knot(vec![k as f32], dir), "surface try_refine_knot");
        for (what, g) in [("surface split", l), ("surface split", r), ("surface refine", x)] {
            let g = RS::of(&g);
            let ((a, b), (e, f)) = g.dom();
            for i in 0..=4 {
                for j in 0..=4 {
                    let (u, v) = (a + (b - a) * i as f64 / 4.0, e + (f - e) * j as f64 / 4.0);
                    chk!(dist(&g.at(u, v), &rs.at(u, v)) <= tol, what, "{what} at {k}: {:?} at ({u}, {v}), surface {:?}", g.at(u, v), rs.at(u, v));
                }
            }
        }
    }
    // meshes
    let (lu, lv) = (b - a, f - e);
    let opts = AdaptiveTessellationOptions { norm_tolerance: 1e-2, ..Default::default() };
    let m = sf.tessellate(Some(opts));
    chk!(m.faces().len() < 200000, "mesh", "{} faces", m.faces().len());
    let uvs: Vec<V> = m.uvs().iter().map(|q| vv(q)).collect();
    for (q, p) in uvs.iter().zip(m.points()) {
        chk!(dist(&pv(p), &rs.at(q[0].clamp(a, b), q[1].clamp(e, f))) <= tol, "mesh point", "vertex {p:?} at {q:?}");
    }
    let ar: f64 = m.faces().iter().map(|t| 0.5 * cross2(&uvs[t[0]], &uvs[t[1]], &uvs[t[2]]).abs()).sum();
    chk!((ar / (lu * lv) - 1.0).abs() < 1e-3, "mesh cover", "the faces cover {} of the parameters", ar / (lu * lv));
    let p: V = {
        let s = rs.at(u, v);
        let (_, su, sv) = rs.ders(u, v);
        let n = unit(&cross(&su, &sv));
        add(&s, &mul(&n, c.rng.range(-0.3, 0.3))).iter().map(|x| r32(*x)).collect()
    };
    let (cu, cw) = must!(sf.find_closest_parameter(&q3(&p)), "surface find_closest_parameter");
    let (cu, cw) = (cu as f64, cw as f64);
    chk!(cu >= a && cu <= b && cw >= e && cw <= f, "surface closest", "parameters ({cu}, {cw}) outside the domain");
    let d = dist(&rs.at(cu, cw), &p);
    let mut best = dist(&rs.at(u, v), &p);
    for i in 0..=40 {
        for j in 0..=40 {
            best = best.min(dist(&rs.at(a + lu * i as f64 / 40.0, e + lv * j as f64 / 40.0), &p));
        }
    }
    if d > best + 3e-3 * sc {
        // the start is a vertex of a tessellation, in any precision: what double precision finds decides
        let s64: NurbsSurface3D<f64> = sf.cast();
        let (x, y) = must!(s64.find_closest_parameter(&Point3::new(p[0], p[1], p[2])), "surface find_closest_parameter");
        c.ev("closest points judged by double precision", 1);
        chk!(d <= dist(&rs.at(x, y), &p) + 3e-3 * sc, "surface closest", "distance {d} of {p:?} at ({cu}, {cw}), double precision finds ({x}, {y}), a point of the surface is {best} away");
    }
    c.ev("faces", m.faces().len() as u64);
    Ok(())
}

fn build(c: &mut Ctx) -> R {
    let (cv, rc) = single(c, 3)?;
    let (a, b) = rc.dom();
    let sc = rc.scale();
    let dir: V = (0..3).map(|_| r32(c.rng.range(-5.0, 5.0))).collect();
    let at = |r: f64| rc.at(a + (b - a) * r);
    let s = S3::extrude(&cv, &d3(&dir));
    let g = RS::of(&s);
    let ((ua, ub), (va, vb)) = g.dom();
    for i in 0..=6 {
        for j in 0..=6 {
            let p = g.at(ua + (ub - ua) * i as f64 / 6.0, va + (vb - va) * j as f64 / 6.0);
            // either direction may be the one of the extrusion, which may run either way
            let f = |q: usize, h: usize| {
                let (q, h) = (at(q as f64 / 6.0), h as f64 / 6.0);
                dist(&p, &add(&q, &mul(&dir, h))).min(dist(&p, &add(&q, &mul(&dir, 1.0 - h))))
            };
            let d = f(i, j).min(f(j, i));
            chk!(d <= 2e-4 * (sc + norm(&dir)), "extrude", "{p:?} is {d} away from the moved profile");
        }
    }
    // around an axis
    let (x, y, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| r32(c.rng.range(-5.0, 5.0))).collect();
    let th = c.rng.range(0.3, 6.2);
    let s = must!(S3::try_revolve(&cv, &q3(&o), &d3(&z), th as f32), "try_revolve");
    let g = RS::of(&s);
    let ((ua, ub), (va, vb)) = g.dom();
    for i in 0..=6 {
        for j in 0..=6 {
            let p = g.at(ua + (ub - ua) * i as f64 / 6.0, va + (vb - va) * j as f64 / 6.0);
            // same height and radius as the point of the profile
            let cyl = |p: &V| {
                let d = sub(p, &o);
                (dot(&d, &z), (dot(&d, &x).powi(2) + dot(&d, &y).powi(2)).sqrt())
            };
            let (h, r) = cyl(&p);
            let f = |q: f64| {
                let (a, b) = cyl(&at(q));
                (a - h).hypot(b - r)
            };
            let d = f(i as f64 / 6.0).min(f(j as f64 / 6.0));
            chk!(d <= 3e-4 * (sc + norm(&o)), "revolve", "{p:?} is {d} away from the turned profile");
        }
    }
    let r = c.rng.range(0.5, 8.0);
    let s = must!(S3::try_sphere(&q3(&o), &d3(&z), &d3(&x), r as f32), "try_sphere");
    let g = RS::of(&s);
    let ((ua, ub), (va, vb)) = g.dom();
    for i in 0..=6 {
        for j in 0..=6 {
            let d = dist(&g.at(ua + (ub - ua) * i as f64 / 6.0, va + (vb - va) * j as f64 / 6.0), &o);
            chk!((d - r).abs() <= 1e-4 * (1.0 + r), "sphere", "radius {d} instead of {r}");
        }
    }
    // lofted through moved copies
    let m = Matrix4::new_translation(&d3(&dir));
    let n = c.rng.int(2, 4);
    let mut cs = vec![cv.clone()];
    for _ in 1..n {
        let l = cs.last().unwrap().clone();
        cs.push(l.transformed(&m));
    }
    if norm(&dir) > 1.0 {
        let q = c.rng.int(1, n - 1);
        let s = must!(S3::try_loft(&cs, Some(q)), "try_loft");
        let g = RS::of(&s);
        let ((ua, ub), (va, vb)) = g.dom();
        for i in 0..=8 {
            let f = i as f64 / 8.0;
            for (v, cv) in [(va, &cs[0]), (vb, &cs[n - 1])] {
                let rc = RC::of(cv);
                let (x, y) = (g.at(ua + (ub - ua) * f, v), rc.at(a + (b - a) * f));
                chk!(dist(&x, &y) <= 1e-3 * (sc + 4.0 * norm(&dir)), "loft", "{x:?} on a border of the loft, its profile is at {y:?}");
            }
        }
    }
    c.ev("surfaces built", 4);
    Ok(())
}

/// an ellipse and a polygonal or smooth partner
fn ring(c: &mut Ctx, o: &[f64], r: f64) -> (C2, Vec<RC>) {
    let th = c.rng.range(0.0, 6.28);
    let cv = match c.rng.int(0, 2) {
        0 => C2::try_ellipse(&q2(o), &Vector2::new((r * th.cos()) as f32, (r * th.sin()) as f32), &Vector2::new((-0.6 * r * th.sin()) as f32, (0.6 * r * th.cos()) as f32)).unwrap(),
        1 => {
            let n = c.rng.int(3, 7);
            let mut p: Vec<Point2<f32>> = (0..n)
                .map(|i| {
                    let a = th + 6.283185307 * i as f64 / n as f64;
                    q2(&[o[0] + r * a.cos(), o[1] + r * a.sin()])
                })
                .collect();
            p.push(p[0]);
            C2::polyline(&p, true)
        }
        _ => {
            let n = c.rng.int(5, 8);
            let p: Vec<Point2<f32>> = (0..n)
                .map(|i| {
                    let a = th + 6.283185307 * i as f64 / n as f64;
                    let r = r * c.rng.range(0.7, 1.1);
                    q2(&[o[0] + r * a.cos(), o[1] + r * a.sin()])
                })
                .collect();
            C2::try_periodic(&p, 3).unwrap()
        }
    };
    let rc = RC::of(&cv);
    (cv, vec![rc])
}

fn planar(c: &mut Ctx) -> R {
    let size = *c.rng.pick(&[1.0, 2.0, 5.0]);
    let (oa, d) = (vec![size * c.rng.range(-1.0, 1.0), size * c.rng.range(-1.0, 1.0)], c.rng.range(0.0, 6.28));
    let gap = size * c.rng.range(0.4, 1.2);
    let ob = vec![oa[0] + gap * d.cos(), oa[1] + gap * d.sin()];
    let (ca, ra) = ring(c, &oa, size);
    let rb_size = size * c.rng.range(0.6, 1.0);
    let (cb, rb) = ring(c, &ob, rb_size);
    c.describe(format!("{:?} {:?}", ra, rb));
    c.shape(&[ra[0].p as u64, rb[0].p as u64, ra[0].k.len() as u64, rb[0].k.len() as u64]);
    let (pa, _) = polygon(&ra, if ra[0].p == 1 { 1 } else { 60 });
    let (pb, _) = polygon(&rb, if rb[0].p == 1 { 1 } else { 60 });
    // containment
    let mut told = 0;
    for _ in 0..30 {
        let q = vec![r32(oa[0] + size * c.rng.range(-1.4, 1.4)), r32(oa[1] + size * c.rng.range(-1.4, 1.4))];
        if polyd(&q, &pa) < 0.02 * size {
            continue;
        }
        let got = must!(ca.contains(&q2(&q), None), "contains");
        chk!(got == polyin(&q, &pa), "contains", "contains({q:?}) = {got}");
        told += 1;
    }
    c.ev("memberships", told);
    // crossings
    let Some(xs) = crate::c_bool::general(&ra, &pa, &rb, &pb, size) else { return Err(Stop::Skip("not in general position")) };
    // the default tolerance is meant for double precision
    let opt = Some(CurveIntersectionSolverOptions::<f32>::default().with_minimum_distance((2e-5 * size) as f32));
    let got = must!(ca.find_intersections(&cb, opt.clone()), "find_intersections");
    chk!(got.len() == xs.len(), "crossings", "{} crossings found, there are {}", got.len(), xs.len());
    for x in &xs {
        chk!(got.iter().any(|g| dist(&pv(&g.a().0), &x.p) < 2e-3 * size && dist(&pv(&g.b().0), &x.p) < 2e-3 * size), "crossings", "the crossing at {:?} is missing from {:?}", x.p, got.iter().map(|g| pv(&g.a().0)).collect::<Vec<_>>());
    }
    c.ev("crossings", xs.len() as u64);
    for op in [Op::Union, Op::Intersection, Op::Difference] {
        let r = must!(match op { Op::Union => ca.union(&cb, opt.clone()), Op::Intersection => ca.intersection(&cb, opt.clone()), Op::Difference => ca.difference(&cb, opt.clone()) }, "boolean").into_regions();
        let sets: Vec<Vec<Vec<V>>> = r
            .iter()
            .map(|r| std::iter::once(r.exterior()).chain(r.interiors()).map(|cc| polygon(&cc.spans().iter().map(RC::of).collect::<Vec<_>>(), 60).0).collect())
            .collect();
        for _ in 0..30 {
            let q = vec![r32(oa[0] + size * c.rng.range(-1.6, 1.6)), r32(oa[1] + size * c.rng.range(-1.6, 1.6))];
            if polyd(&q, &pa) < 0.02 * size || polyd(&q, &pb) < 0.02 * size {
                continue;
            }
            let (ia, ib) = (polyin(&q, &pa), polyin(&q, &pb));
            let want = match op { Op::Union => ia || ib, Op::Intersection => ia && ib, Op::Difference => ia && !ib };
            let got = sets.iter().any(|l| polyin(&q, &l[0]) && !l[1..].iter().any(|h| polyin(&q, h)));
            chk!(got == want, "boolean", "{op:?} at {q:?}: {got}, first {ia}, second {ib}");
            c.ev("boolean memberships", 1);
        }
        // meshes of the results
        for (r, l) in r.iter().zip(&sets) {
            let m = must!(r.tessellate(Some((1e-3 * size) as f32)), "region tessellate");
            let v: Vec<V> = m.vertices().iter().map(pv).collect();
            let got: f64 = m.faces().iter().map(|t| 0.5 * cross2(&v[t[0]], &v[t[1]], &v[t[2]]).abs()).sum();
            let of = |p: &Vec<V>| (0..p.len()).map(|i| { let (a, b) = (&p[i], &p[(i + 1) % p.len()]); a[0] * b[1] - a[1] * b[0] }).sum::<f64>().abs() * 0.5;
            let want = of(&l[0]) - l[1..].iter().map(of).sum::<f64>();
            chk!((got - want).abs() < 3e-2 * size * size, "region mesh", "the mesh of the {op:?} covers {got} of {want}");
            c.ev("region meshes", 1);
        }
    }
    let _ = area;
    let _: Option<CompoundCurve<f32, Const<3>>> = None;
    Ok(())
}

fn pierce(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| r32(c.rng.range(-5.0, 5.0))).collect();
    let r = c.rng.range(0.5, 6.0);
    let s = must!(S3::try_sphere(&q3(&o), &d3(&z), &d3(&x), r as f32), "try_sphere");
    // a line past the centre
    let (a, b) = (c.rng.range(0.0, 6.28), c.rng.range(0.05, 0.8) * r);
    let dir = unit(&(0..3).map(|_| c.rng.range(-1.0, 1.0)).collect::<V>());
    let side = unit(&cross(&dir, &add(&mul(&x, a.cos()), &mul(&y, a.sin()))));
    let m = add(&o, &mul(&side, b));
    let h = (r * r - b * b).sqrt();
    let (l0, l1) = (c.rng.range(1.2, 3.0), if c.rng.bool(0.7) { c.rng.range(1.2, 3.0) } else { c.rng.range(-0.7, 0.7) });
    let (p, q) = (sub(&m, &mul(&dir, l0 * h)), add(&m, &mul(&dir, l1 * h)));
    c.describe(format!("sphere {o:?} {z:?} {x:?} {r} line {p:?} {q:?}"));
    c.shape(&[(l1 < 1.0) as u64, (a * 4.0) as u64]);
    let cv = C3::polyline(&[q3(&p), q3(&q)], c.rng.bool(0.5));
    let got = must!(s.find_intersections(&cv, None), "find_intersections");
    let want: Vec<V> = [(-1.0, true), (1.0, l1 > 1.0)].iter().filter(|x| x.1).map(|x| add(&m, &mul(&dir, x.0 * h))).collect();
    // the poles are not in general position
    for w in &want {
        let k = dot(&sub(w, &o), &z).abs() / r;
        if k > 0.97 {
            return Err(Stop::Skip("near a pole"));
        }
    }
    chk!(got.len() == want.len(), "pierce", "{} points found, there are {}: {:?}", got.len(), want.len(), got.iter().map(|g| pv(&g.a().0)).collect::<Vec<_>>());
    for w in &want {
        chk!(got.iter().any(|g| dist(&pv(&g.a().0), w) < 3e-3 * (1.0 + r) && dist(&pv(&g.b().0), w) < 3e-3 * (1.0 + r)), "pierce", "{w:?} is missing");
    }
    c.ev("surface crossings", want.len() as u64);
    Ok(())
}

fn trimmed(c: &mut Ctx) -> R {
    let (x, y, _) = frame3(&mut c.rng);
    let (u, v) = (c.rng.range(1.0, 8.0), c.rng.range(1.0, 8.0));
    let o: V = (0..3).map(|_| r32(c.rng.range(-5.0, 5.0))).collect();
    let mut s = sspec(c, &SOpt { pmax: 3, extra: 2, height: Some(0.3), w: Some(W::One), dom: false, ..Default::default() });
    let _ = (&x, &y, u, v, o);
    s.w.iter_mut().flatten().for_each(|w| *w = 1.0);
    let sf: S3 = s.s3().cast();
    let rs = RS::of(&sf);
    let ((a, b), (e, f)) = rs.dom();
    let l = (b - a).min(f - e);
    let (m, n) = (0.5 * (a + b), 0.5 * (e + f));
    let r = l * c.rng.range(0.3, 0.45);
    let ext = c.rng.bool(0.6);
    let (oc, _) = ring(c, &[m, n], r);
    let ri = r * c.rng.range(0.2, 0.4);
    let (ic, _) = ring(c, &[m, n], ri);
    let hole = c.rng.bool(0.6) || !ext;
    c.shape(&[ext as u64, hole as u64, oc.degree() as u64, ic.degree() as u64]);
    let t = TrimmedSurface::new(sf.clone(), if ext { Some(oc.clone()) } else { None }, if hole { vec![ic.clone()] } else { vec![] });
    let mesh = must!(t.tessellate(Some(AdaptiveTessellationOptions { norm_tolerance: 1e-2, ..Default::default() })), "trimmed tessellate");
    let uvs: Vec<V> = mesh.uvs().iter().map(|q| vv(q)).collect();
    for (q, p) in uvs.iter().zip(mesh.points()) {
        chk!(dist(&pv(p), &rs.at(q[0].clamp(a, b), q[1].clamp(e, f))) <= 1e-3 * rs.scale(), "trimmed point", "vertex {p:?} at {q:?}");
    }
    let got: f64 = mesh.faces().iter().map(|t| 0.5 * cross2(&uvs[t[0]], &uvs[t[1]], &uvs[t[2]]).abs()).sum();
    let out = if ext { area(&[RC::of(&oc)]).abs() } else { (b - a) * (f - e) };
    let want = out - if hole { area(&[RC::of(&ic)]).abs() } else { 0.0 };
    if (got - want).abs() > 0.03 * out {
        // chords of skinny boundaries miss this much in any precision: what double precision finds decides
        let t64 = TrimmedSurface::<f64>::new(sf.cast(), if ext { Some(oc.cast()) } else { None }, if hole { vec![ic.cast()] } else { vec![] });
        let m = must!(t64.tessellate(Some(AdaptiveTessellationOptions { norm_tolerance: 1e-2, ..Default::default() })), "trimmed tessellate");
        let uvs: Vec<V> = m.uvs().iter().map(|q| vv(q)).collect();
        let g: f64 = m.faces().iter().map(|t| 0.5 * cross2(&uvs[t[0]], &uvs[t[1]], &uvs[t[2]]).abs()).sum();
        c.ev("trimmed areas judged by double precision", 1);
        chk!((got - g).abs() <= 0.02 * out, "trimmed cover", "the faces cover {got} of {want}, double {g} ext {ext} hole {hole} {:?} {:?}", RC::of(&oc), RC::of(&ic));
    }
    c.ev("trimmed faces", mesh.faces().len() as u64);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C39",
        rule: "distinct structure signatures of the objects handled in single precision",
        loads: vec![
            Workload { name: "shape", f: shape, quick: 800, thorough: 10000 },
            Workload { name: "make", f: make, quick: 1000, thorough: 10000 },
            Workload { name: "near", f: near, quick: 1000, thorough: 8000 },
            Workload { name: "surface", f: surface, quick: 350, thorough: 3000 },
            Workload { name: "build", f: build, quick: 1200, thorough: 8000 },
            Workload { name: "planar", f: planar, quick: 300, thorough: 4000 },
            Workload { name: "pierce", f: pierce, quick: 250, thorough: 1500 },
            Workload { name: "trimmed", f: trimmed, quick: 350, thorough: 3000 },
        ],
    }]
}
