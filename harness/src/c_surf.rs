//! C26-C29: surface evaluation, constructors, loft/sweep, refinement/splitting/isocurves.
use crate::c_make;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{Point3, Vector3};
use std::f64::consts::PI;

/// query parameters over breaks: ends, knots, interiors
fn qs(c: &mut Ctx, b: &[f64], n: usize) -> Vec<f64> {
    let (a, e) = (b[0], b[b.len() - 1]);
    let mut v = vec![a, e];
    if b.len() > 2 {
        for _ in 0..2 {
            let i = c.rng.int(1, b.len() - 2);
            v.push(b[i]);
        }
    }
    for _ in 0..n {
        v.push(c.rng.range(a, e));
    }
    v
}
fn mult(k: &[f64], x: f64) -> usize {
    k.iter().filter(|y| **y == x).count()
}
fn sv3(v: &nalgebra::OVector<f64, nalgebra::Const<3>>) -> V {
    v.iter().cloned().collect()
}

// ---------------------------------------------------------------- C26

fn c26_eval(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt::default());
    let f = s.s3();
    let rs = RS::of(&f);
    let sc = rs.scale();
    chk!(f.u_degree() == s.p && f.v_degree() == s.q && f.u_knots().to_vec() == s.ku && f.v_knots().to_vec() == s.kv, "accessors", "accessors");
    chk!(f.knots_domain() == rs.dom() && f.u_knots_domain() == rs.dom().0 && f.v_knots_domain() == rs.dom().1, "domain", "domain {:?} want {:?}", f.knots_domain(), rs.dom());
    chk!(f.knots_domain_at(UVDirection::U) == rs.dom().0 && f.knots_domain_at(UVDirection::V) == rs.dom().1, "domain", "knots_domain_at");
    let d = rs.dom();
    let iv = f.knots_domain_interval();
    chk!(iv == (d.0 .1 - d.0 .0, d.1 .1 - d.1 .0), "domain", "interval {iv:?}");
    for (i, row) in f.dehomogenized_control_points().iter().enumerate() {
        for (j, p) in row.iter().enumerate() {
            chk!(dist(&pv(p), &s.pts[i][j]) <= 1e-12 * sc, "dehomogenize", "control point {i},{j}");
        }
    }
    let t = f.transposed_control_points();
    chk!(t.len() == s.pts[0].len() && t.iter().enumerate().all(|(j, r)| r.iter().enumerate().all(|(i, p)| *p == f.control_points()[i][j])), "transpose", "transposed control points");
    let f2 = s.s2();
    let r2 = RS::of(&f2);
    let (us, vs) = (qs(c, &rs.ubreaks(), 4), qs(c, &rs.vbreaks(), 4));
    for &u in &us {
        for &v in &vs {
            let w = rs.at(u, v);
            let g = pv(&f.point_at(u, v));
            let e = dist(&g, &w) / sc;
            c.err("point", e);
            chk!(e <= 1e-10, "point", "point_at({u}, {v}) = {g:?}, definition gives {w:?}");
            let h = pv(&f.point(u, v));
            let eh: V = h[..3].iter().map(|x| x / h[3]).collect();
            chk!(dist(&eh, &w) <= 1e-10 * sc, "point-hom", "homogeneous point");
            chk!(dist(&pv(&f2.point_at(u, v)), &r2.at(u, v)) <= 1e-10 * sc, "point-2d", "2d surface point_at({u}, {v})");
        }
    }
    c.ev("points", (us.len() * vs.len()) as u64);
    Ok(())
}

fn c26_ders(c: &mut Ctx) -> R {
    let w = if c.rng.bool(0.5) { W::One } else { W::Mild };
    let s = sspec(c, &SOpt { w: Some(w), ..Default::default() });
    let f = s.s3();
    let rs = RS::of(&f);
    let (bu, bv) = (rs.ubreaks(), rs.vbreaks());
    let wr = rs.wratio();
    let (gu, gv) = (s.p as f64 / minspan(&bu) * wr, s.q as f64 / minspan(&bv) * wr);
    for u in qs(c, &bu, 2) {
        for v in qs(c, &bv, 2) {
            let (mu, mv) = (mult(&s.ku, u), mult(&s.kv, v));
            let inner = |x: f64, b: &[f64]| x > b[0] && x < b[b.len() - 1];
            let d = c.rng.int(0, 3);
            let (su, sv) = (span_of(&s.ku, s.p, u), span_of(&s.kv, s.q, v));
            let want = rs.mixed(su, sv, u, v, d);
            let got = f.rational_derivatives(u, v, d);
            chk!(got.len() == d + 1 && got.iter().enumerate().all(|(k, r)| r.len() == d + 1 - k), "ders-shape", "derivative table shape");
            for k in 0..=d {
                for l in 0..=d - k {
                    // only where the derivative exists
                    if (inner(u, &bu) && mu > 0 && mu + k > s.p) || (inner(v, &bv) && mv > 0 && mv + l > s.q) {
                        continue;
                    }
                    let sc = rs.scale() * gu.powi(k as i32) * gv.powi(l as i32) * [1.0, 1.0, 2.0, 6.0][k] * [1.0, 1.0, 2.0, 6.0][l] * wr;
                    let e = dist(&sv3(&got[k][l]), &want[k][l]) / sc;
                    c.err("ders", e);
                    chk!(e <= 1e-9, "ders", "d^{k}u d^{l}v at ({u}, {v}) = {:?}, true {:?}", got[k][l], want[k][l]);
                    c.ev("derivatives", 1);
                }
            }
            if !(inner(u, &bu) && mu >= s.p) && !(inner(v, &bv) && mv >= s.q) {
                let m = rs.mixed(su, sv, u, v, 1);
                let n = cross(&m[1][0], &m[0][1]);
                let g = sv3(&f.normal_at(u, v));
                let sc = rs.scale() * rs.scale() * gu * gv * wr;
                chk!(dist(&g, &n) <= 1e-9 * sc, "normal", "normal_at({u}, {v}) = {g:?}, Su x Sv = {n:?}");
                c.ev("normals", 1);
            }
        }
    }
    Ok(())
}

fn c26_fd(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt { w: Some(W::Mild), pmax: 4, ..Default::default() });
    let f = s.s3();
    let rs = RS::of(&f);
    let wr = rs.wratio();
    let pick = |c: &mut Ctx, b: &[f64]| {
        let i = c.rng.int(0, b.len() - 2);
        let h = b[i + 1] - b[i];
        (b[i] + h * c.rng.range(0.1, 0.9), h)
    };
    for _ in 0..4 {
        let (u, lu) = pick(c, &rs.ubreaks());
        let (v, lv) = pick(c, &rs.vbreaks());
        let (hu, hv) = (lu * 1e-4, lv * 1e-4);
        let g = f.rational_derivatives(u, v, 1);
        let du = mul(&sub(&pv(&f.point_at(u + hu, v)), &pv(&f.point_at(u - hu, v))), 0.5 / hu);
        let dv = mul(&sub(&pv(&f.point_at(u, v + hv)), &pv(&f.point_at(u, v - hv))), 0.5 / hv);
        let (au, av) = (rs.scale() * s.p as f64 * wr / lu, rs.scale() * s.q as f64 * wr / lv);
        chk!(dist(&sv3(&g[1][0]), &du) <= 1e-5 * au * wr * wr, "fd-u", "dS/du at ({u}, {v}) = {:?}, finite difference {du:?}", g[1][0]);
        chk!(dist(&sv3(&g[0][1]), &dv) <= 1e-5 * av * wr * wr, "fd-v", "dS/dv at ({u}, {v}) = {:?}, finite difference {dv:?}", g[0][1]);
        c.ev("finite_difference_checks", 2);
    }
    Ok(())
}

fn c26_grid(c: &mut Ctx) -> R {
    let w = if c.rng.bool(0.5) { W::One } else { W::Mild };
    let s = sspec(c, &SOpt { height: Some(0.5), w: Some(w), ..Default::default() });
    let f = s.s3();
    let rs = RS::of(&f);
    let sc = rs.scale();
    let (nu, nv) = (c.rng.int(1, 9), c.rng.int(1, 9));
    let d = c.rng.int(0, 3);
    let ((u0, u1), (v0, v1)) = rs.dom();
    let pts = f.regular_sample_points(nu, nv);
    let nrm = f.regular_sample_normals(nu, nv);
    let ders = f.regular_sample_rational_derivatives(nu, nv, d);
    let hd = f.regular_sample_derivatives(nu, nv, d);
    c.shape(&[s.sig, nu as u64, nv as u64, d as u64]);
    for (n, l) in [("points", pts.len()), ("normals", nrm.len()), ("derivatives", ders.len()), ("hom", hd.len())] {
        chk!(l == nu + 1, "grid-shape", "{n}: {l} rows for {nu} divisions");
    }
    let (bu, bv) = (rs.ubreaks(), rs.vbreaks());
    let wr = rs.wratio();
    let (gu, gv) = (s.p as f64 / minspan(&bu) * wr, s.q as f64 / minspan(&bv) * wr);
    for i in 0..=nu {
        chk!(pts[i].len() == nv + 1 && nrm[i].len() == nv + 1 && ders[i].len() == nv + 1 && hd[i].len() == nv + 1, "grid-shape", "row length");
        for j in 0..=nv {
            let u = u0 + (u1 - u0) * i as f64 / nu as f64;
            let v = v0 + (v1 - v0) * j as f64 / nv as f64;
            let w = rs.at(u, v);
            chk!(dist(&pv(&pts[i][j]), &w) <= 1e-8 * sc, "grid-point", "grid point {i},{j} = {:?}, point at ({u}, {v}) is {w:?}", pts[i][j]);
            c.ev("grid_points", 1);
            let near = |x: f64, b: &[f64]| b[1..b.len() - 1].iter().any(|k| (k - x).abs() < 1e-9 * (b[b.len() - 1] - b[0]));
            if near(u, &bu) || near(v, &bv) {
                continue;
            }
            let (su, sv) = (span_of(&s.ku, s.p, u), span_of(&s.kv, s.q, v));
            let m = rs.mixed(su, sv, u, v, d);
            let hm = rs.hmixed(su, sv, u, v, d);
            chk!(ders[i][j].len() > d && hd[i][j].len() > 0, "grid-shape", "derivative table");
            for k in 0..=d {
                for l in 0..=d - k {
                    let tol = 1e-7 * rs.scale() * gu.powi(k as i32) * gv.powi(l as i32) * [1.0, 1.0, 2.0, 6.0][k] * [1.0, 1.0, 2.0, 6.0][l] * wr;
                    chk!(dist(&sv3(&ders[i][j][k][l]), &m[k][l]) <= tol, "grid-ders", "grid derivative {k},{l} at ({u}, {v}) = {:?}, true {:?}", ders[i][j][k][l], m[k][l]);
                    if let Some(x) = hd[i][j].get(k).and_then(|r| r.get(l)) {
                        chk!(dist(&vv(x), &hm[k][l]) <= tol, "grid-hom-ders", "grid homogeneous derivative {k},{l} at ({u}, {v}) = {:?}, true {:?}", x, hm[k][l]);
                    } else {
                        chk!(norm(&hm[k][l]) <= tol, "grid-hom-ders", "homogeneous derivative {k},{l} missing");
                    }
                    c.ev("grid_derivatives", 1);
                }
            }
            let m1 = rs.mixed(su, sv, u, v, 1);
            let n = cross(&m1[1][0], &m1[0][1]);
            if norm(&n) > 1e-3 * norm(&m1[1][0]) * norm(&m1[0][1]) {
                let g = sv3(&nrm[i][j]);
                chk!(dist(&g, &unit(&n)) <= 1e-4, "grid-normal", "grid normal {i},{j} = {g:?}, unit normal {:?}", unit(&n));
                c.ev("grid_normals", 1);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C27

fn c27_plane(c: &mut Ctx) -> R {
    let r = &mut c.rng;
    let o: V = (0..3).map(|_| r.range(-10.0, 10.0)).collect();
    let x: V = (0..3).map(|_| r.range(-5.0, 5.0)).collect();
    let y: V = (0..3).map(|_| r.range(-5.0, 5.0)).collect();
    c.describe(format!("plane {o:?} {x:?} {y:?}"));
    let f = NurbsSurface3D::<f64>::plane(p3(&o), v3(&x), v3(&y));
    let ((u0, u1), (v0, v1)) = f.knots_domain();
    c.shape(&[c.seed]);
    for i in 0..=5 {
        for j in 0..=5 {
            let (a, b) = (i as f64 / 5.0, j as f64 / 5.0);
            let want = add(&o, &add(&mul(&x, 2.0 * a - 1.0), &mul(&y, 2.0 * b - 1.0)));
            let (u, v) = (u0 + (u1 - u0) * a, v0 + (v1 - v0) * b);
            let g = pv(&f.point_at(u, v));
            chk!(dist(&g, &want) <= 1e-10 * 30.0, "plane", "({a}, {b}): {g:?}, rectangle gives {want:?}");
            let n = sv3(&f.normal_at(u, v));
            let w = cross(&x, &y);
            chk!(dist(&unit(&n), &unit(&w)) < 1e-6, "plane-normal", "normal {n:?}, x cross y is {w:?}");
            c.ev("points", 1);
        }
    }
    Ok(())
}

fn c27_extrude(c: &mut Ctx) -> R {
    let s = spec_in(c, &SpecOpt { dim: 3, pmax: 5, ..Default::default() });
    let t: V = (0..3).map(|_| c.rng.range(-20.0, 20.0)).collect();
    let cv = s.c3();
    let f = NurbsSurface3D::extrude(&cv, &v3(&t));
    let rc = RC::of(&cv);
    let sc = rc.scale() + norm(&t);
    let ((u0, u1), vd) = f.knots_domain();
    chk!(vd == rc.dom(), "extrude-domain", "v domain {vd:?}, profile domain {:?}", rc.dom());
    for v in rc.params(3) {
        for i in 0..=6 {
            let a = i as f64 / 6.0;
            let want = add(&rc.at(v), &mul(&t, 1.0 - a));
            let g = pv(&f.point_at(u0 + (u1 - u0) * a, v));
            chk!(dist(&g, &want) <= 1e-9 * sc, "extrude", "({a}, {v}): {g:?}, translated profile {want:?}");
            c.ev("points", 1);
        }
    }
    Ok(())
}

fn rot(axis: &[f64], a: f64, p: &[f64]) -> V {
    // Rodrigues, unit axis
    let (s, k) = a.sin_cos();
    let d = dot(axis, p);
    let x = cross(axis, p);
    (0..3).map(|i| p[i] * k + x[i] * s + axis[i] * d * (1.0 - k)).collect()
}

/// angle from `a` to `b` around the axis, both perpendicular parts
fn ang(axis: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let pa = sub(a, &mul(axis, dot(a, axis)));
    let pb = sub(b, &mul(axis, dot(b, axis)));
    dot(&cross(&pa, &pb), axis).atan2(dot(&pa, &pb))
}

fn c27_revolve(c: &mut Ctx) -> R {
    let mut s = spec_in(c, &SpecOpt { dim: 3, pmax: 4, extra: 4, w: None, ..Default::default() });
    let (ax, _, _) = frame3(&mut c.rng);
    let far = *c.rng.pick(&[5.0, 5.0, 500.0]);
    let ctr: V = (0..3).map(|_| far * c.rng.range(-1.0, 1.0)).collect();
    let len = *c.rng.pick(&[1.0, 1.0, 0.2, 3.0]);
    // sometimes put an end of the profile on the axis
    let onaxis = c.rng.bool(0.3);
    if onaxis {
        let h = c.rng.range(-5.0, 5.0);
        s.pts[0] = add(&ctr, &mul(&ax, h));
    }
    let theta = match c.rng.int(0, 7) {
        0 => PI / 2.0,
        1 => PI,
        2 => 1.5 * PI,
        3 => 2.0 * PI,
        4 => -c.rng.range(0.01, 2.0 * PI),
        5 => 10f64.powf(c.rng.range(-5.0, -1.0)) * if c.rng.bool(0.5) { 1.0 } else { -1.0 },
        _ => c.rng.range(0.01, 2.0 * PI),
    };
    c.describe(format!("revolve theta={theta} axis={:?} center={ctr:?} profile {}", mul(&ax, len), s.desc()));
    c.shape(&[s.sig(), (theta * 2.0 / PI).ceil() as i64 as u64, onaxis as u64, (len * 10.0) as u64]);
    let cv = s.c3();
    let f = must!(NurbsSurface3D::try_revolve(&cv, &p3(&ctr), &v3(&mul(&ax, len)), theta), "revolve");
    let rc = RC::of(&cv);
    let sc = rc.scale() + norm(&ctr);
    let ((u0, u1), vd) = f.knots_domain();
    chk!(vd == rc.dom(), "revolve-domain", "v domain {vd:?}");
    // parameters of the profile away from the axis
    let mut vs: Vec<f64> = rc.params(2);
    vs.retain(|v| {
        let q = sub(&rc.at(*v), &ctr);
        let r = sub(&q, &mul(&ax, dot(&q, &ax)));
        norm(&r) > 1e-3 * sc
    });
    let mut prev = 0.0;
    let n = 24;
    for i in 0..=n {
        let u = u0 + (u1 - u0) * i as f64 / n as f64;
        // the angle reached at u, from one profile point
        let mut phi: Option<f64> = None;
        for &v in vs.iter().chain(rc.params(1).iter()) {
            let q = sub(&rc.at(v), &ctr);
            let g = sub(&pv(&f.point_at(u, v)), &ctr);
            let a = match phi {
                Some(a) => a,
                None => {
                    if vs.is_empty() {
                        return Err(Stop::Skip("profile on the axis"));
                    }
                    // unwrap next to the previous angle
                    let mut a = ang(&ax, &q, &g);
                    while a - prev > PI {
                        a -= 2.0 * PI;
                    }
                    while a - prev < -PI {
                        a += 2.0 * PI;
                    }
                    phi = Some(a);
                    a
                }
            };
            let w = rot(&ax, a, &q);
            let e = dist(&g, &w) / sc;
            c.err("revolve", e);
            chk!(e <= 1e-8, "revolve", "at ({u}, {v}): {g:?}, profile rotated by {a} is {w:?}");
            c.ev("points", 1);
        }
        let a = phi.unwrap_or(prev);
        if i == 0 {
            chk!(a.abs() < 1e-8, "revolve-start", "starts at angle {a}");
        } else {
            chk!((a - prev) * theta.signum() > 0.0, "revolve-monotone", "angle goes from {prev} to {a} (sweep {theta})");
        }
        prev = a;
    }
    chk!((prev - theta).abs() < 1e-9, "revolve-end", "ends at angle {prev}, requested {theta}");
    Ok(())
}

fn c27_sphere(c: &mut Ctx) -> R {
    let (ax, xx, _) = frame3(&mut c.rng);
    let (la, lx) = (*c.rng.pick(&[1.0, 1.0, 2.5, 0.3]), *c.rng.pick(&[1.0, 1.0, 2.0]));
    let ctr: V = (0..3).map(|_| c.rng.range(-20.0, 20.0)).collect();
    let r = *c.rng.pick(&[1.0, 0.01, 7.5, 300.0]);
    c.describe(format!("sphere center={ctr:?} axis={:?} x={:?} r={r}", mul(&ax, la), mul(&xx, lx)));
    c.shape(&[c.seed]);
    let f = must!(NurbsSurface3D::try_sphere(&p3(&ctr), &v3(&mul(&ax, la)), &v3(&mul(&xx, lx)), r), "sphere");
    let ((u0, u1), (v0, v1)) = f.knots_domain();
    let n = 16;
    let mut hs = vec![];
    let mut tot = 0.0;
    let mut last: Option<V> = None;
    for i in 0..=n {
        for j in 0..=n {
            let (u, v) = (u0 + (u1 - u0) * i as f64 / n as f64, v0 + (v1 - v0) * j as f64 / n as f64);
            let q = sub(&pv(&f.point_at(u, v)), &ctr);
            chk!((norm(&q) - r).abs() <= 1e-9 * (r + norm(&ctr)), "sphere-radius", "({u}, {v}) is at distance {} from the centre, radius {r}", norm(&q));
            if i == 0 {
                hs.push(dot(&q, &ax) / r);
            } else {
                chk!((dot(&q, &ax) / r - hs[j]).abs() < 1e-7 * (1.0 + norm(&ctr) / r), "sphere-parallel", "a parallel leaves its plane");
            }
            if j == n / 2 {
                if let Some(l) = &last {
                    tot += ang(&ax, l, &q);
                }
                last = Some(q);
            }
            c.ev("points", 1);
        }
    }
    chk!((hs[0].abs() - 1.0).abs() < 1e-6 && (hs[n].abs() - 1.0).abs() < 1e-6 && hs[0] * hs[n] < 0.0, "sphere-poles", "meridian runs from height {} to {}", hs[0], hs[n]);
    chk!(hs.windows(2).all(|w| (w[1] - w[0]) * (hs[n] - hs[0]) > 0.0), "sphere-meridian", "meridian heights {hs:?}");
    chk!((tot.abs() - 2.0 * PI).abs() < 1e-6, "sphere-turn", "the equator turns by {tot}");
    Ok(())
}

// ---------------------------------------------------------------- C28

/// maximal distance of the surface's isoline at v from a curve, both over normalised parameters
fn iso_dist(rs: &RS, rc: &RC, v: f64, n: usize) -> f64 {
    let ((u0, u1), _) = rs.dom();
    let (a, b) = rc.dom();
    (0..=n)
        .map(|i| {
            let f = i as f64 / n as f64;
            dist(&rs.at(u0 + (u1 - u0) * f, v), &rc.at(a + (b - a) * f))
        })
        .fold(0.0, f64::max)
}
/// parameter where the isoline is nearest to the curve, at or after `from`
fn find_iso(rs: &RS, rc: &RC, from: f64, n: usize) -> (f64, f64) {
    let (_, (v0, v1)) = rs.dom();
    let g = 400;
    let mut cand: Vec<(f64, f64)> = (0..=g).map(|i| v0 + (v1 - v0) * i as f64 / g as f64).filter(|v| *v >= from - (v1 - v0) / g as f64).map(|v| (iso_dist(rs, rc, v, 4), v)).collect();
    cand.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut best = (f64::MAX, v0);
    for &(_, v) in cand.iter().take(4) {
        let h = (v1 - v0) / g as f64;
        let (mut a, mut b) = ((v - h).max(v0), (v + h).min(v1));
        let k = (5f64.sqrt() - 1.0) / 2.0;
        for _ in 0..60 {
            let (x, y) = (b - k * (b - a), a + k * (b - a));
            if iso_dist(rs, rc, x, 4) < iso_dist(rs, rc, y, 4) { b = y } else { a = x }
        }
        for x in [a, b, (a + b) / 2.0, v0, v1] {
            let d = iso_dist(rs, rc, x, n);
            if d < best.0 {
                best = (d, x);
            }
        }
    }
    best
}

fn loft_curves(c: &mut Ctx, n: usize, same: bool) -> Vec<Spec> {
    let (x, y, z) = frame3(&mut c.rng);
    // strongly varying weights only where no isoline has to be searched for
    let w = if n == 2 { None } else { Some(*c.rng.pick(&[W::One, W::Mild])) };
    let first = spec(&mut c.rng, &SpecOpt { dim: 2, pmax: 4, extra: 4, styles: &ALL_KS, w, scale: 1.0, ..Default::default() });
    let mut h = 0.0;
    (0..n)
        .map(|i| {
            let mut s = if same && i > 0 {
                let mut s = first.clone();
                for p in s.pts.iter_mut() {
                    p[0] += c.rng.range(-0.3, 0.3);
                    p[1] += c.rng.range(-0.3, 0.3);
                }
                s
            } else if i == 0 {
                first.clone()
            } else {
                spec(&mut c.rng, &SpecOpt { dim: 2, pmax: 4, extra: 4, styles: &ALL_KS, w, scale: 1.0, ..Default::default() })
            };
            for p in s.pts.iter_mut() {
                let q = add(&add(&mul(&x, p[0]), &mul(&y, p[1])), &mul(&z, h));
                *p = q;
            }
            h += c.rng.range(0.5, 3.0);
            s
        })
        .collect()
}

fn c28_loft(c: &mut Ctx) -> R {
    let n = c.rng.int(2, 6);
    let same = c.rng.bool(0.3);
    let mut ss = loft_curves(c, n, same);
    // apex: profiles sharing an end point
    if same && c.rng.bool(0.3) {
        let q = ss[0].pts[0].clone();
        for s in ss.iter_mut() {
            s.pts[0] = q.clone();
        }
    }
    let deg = if c.rng.bool(0.5) { None } else { Some(c.rng.int(1, 4)) };
    c.describe(format!("loft degree {deg:?} of {:?}", ss.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&ss.iter().map(|s| s.sig()).chain([deg.unwrap_or(0) as u64]).collect::<Vec<_>>());
    let curves: Vec<_> = ss.iter().map(|s| s.c3()).collect();
    let f = must!(NurbsSurface3D::try_loft(&curves, deg), "loft");
    let rs = RS::of(&f);
    let sc = ss.iter().flat_map(|s| s.pts.iter().map(|p| norm(p))).fold(1e-3, f64::max);
    let (_, (v0, v1)) = rs.dom();
    chk!(rs.ku.windows(2).all(|w| w[0] <= w[1]) && rs.kv.windows(2).all(|w| w[0] <= w[1]), "loft-knots", "knots are not sorted: {:?} {:?}", rs.ku, rs.kv);
    chk!(rs.ku.len() == rs.c.len() + rs.p + 1 && rs.kv.len() == rs.c[0].len() + rs.q + 1 && rs.c.iter().all(|r| r.len() == rs.c[0].len()), "loft-structure", "knot and control point counts");
    // interpolation conditioning bounds what can be expected
    let tol = 1e-5 * sc;
    let rcs: Vec<RC> = curves.iter().map(RC::of).collect();
    let (a, b) = (iso_dist(&rs, &rcs[0], v0, 20), iso_dist(&rs, &rcs[n - 1], v1, 20));
    chk!(a <= tol, "loft-first", "first boundary departs from the first curve by {a}");
    chk!(b <= tol, "loft-last", "last boundary departs from the last curve by {b}");
    let mut from = v0;
    for i in 1..n - 1 {
        let (d, v) = find_iso(&rs, &rcs[i], from, 20);
        chk!(d <= tol, "loft-interior", "curve {i} of {n} is not on the surface: nearest isoline v={v} departs by {d}");
        chk!(v > from, "loft-order", "curve {i} lies at {v}, not after {from}");
        from = v;
    }
    c.ev("loft_curves", n as u64);
    Ok(())
}

fn c28_sweep(c: &mut Ctx) -> R {
    let prof = spec(&mut c.rng, &SpecOpt { dim: 3, pmax: 3, extra: 3, scale: 1.0, styles: &CLAMPED_KS, ..Default::default() });
    let mut rail = spec(&mut c.rng, &SpecOpt { dim: 3, pmin: 1, pmax: 4, extra: 4, styles: &[KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::OpenUniform], w: Some(W::Mild), ..Default::default() });
    let (x, y, z) = frame3(&mut c.rng);
    // a regular rail: advancing along x
    let straight = c.rng.bool(0.2);
    for (i, p) in rail.pts.iter_mut().enumerate() {
        let (a, b) = if straight { (0.0, 0.0) } else { (c.rng.range(-2.0, 2.0), c.rng.range(-2.0, 2.0)) };
        *p = add(&mul(&x, 3.0 * i as f64), &add(&mul(&y, a), &mul(&z, b)));
    }
    let deg = *c.rng.pick(&[None, Some(1), Some(2), Some(3)]);
    c.describe(format!("sweep degree {deg:?} profile {} rail {}", prof.desc(), rail.desc()));
    c.shape(&[prof.sig(), rail.sig(), deg.unwrap_or(9) as u64, straight as u64]);
    let (pc, rl) = (prof.c3(), rail.c3());
    let f = must!(NurbsSurface3D::try_sweep(&pc, &rl, deg), "sweep");
    let rs = RS::of(&f);
    let (pr, rr) = (RC::of(&pc), RC::of(&rl));
    let sc = pr.scale() + rr.scale();
    chk!(f.dehomogenized_control_points().iter().flatten().all(|p| finite(&pv(p))), "sweep-finite", "non-finite control points");
    let (_, (v0, v1)) = rs.dom();
    let (t0, t1) = rr.dom();
    let samples = rl.control_points().len() * 2;
    // position of a rigidly moved copy: recover the motion from the lofted isoline
    let n = 12;
    let ((u0, u1), _) = rs.dom();
    let (a, b) = pr.dom();
    let p: Vec<V> = (0..=n).map(|i| pr.at(a + (b - a) * i as f64 / n as f64)).collect();
    let iso = |v: f64| -> Vec<V> { (0..=n).map(|i| rs.at(u0 + (u1 - u0) * i as f64 / n as f64, v)).collect() };
    let rigid = |q: &[V], o: &[f64]| -> f64 {
        // distances among points, to the copy of the profile's origin, and handedness
        let mut e = 0.0f64;
        for i in 0..=n {
            e = e.max((norm(&p[i]) - dist(&q[i], o)).abs());
            for j in 0..i {
                e = e.max((dist(&p[i], &p[j]) - dist(&q[i], &q[j])).abs());
            }
        }
        let det = |x: &[f64], y: &[f64], z: &[f64]| dot(&cross(x, y), z);
        let (i, j, k) = (0, n / 2, n);
        let dp = det(&p[i], &p[j], &p[k]);
        let dq = det(&sub(&q[i], o), &sub(&q[j], o), &sub(&q[k], o));
        let l = norm(&p[i]) * norm(&p[j]) * norm(&p[k]);
        if (dp - dq).abs() > 1e-5 * l.max(1e-9) {
            e = e.max((dp - dq).abs() / l.max(1e-9));
        }
        e
    };
    let e0 = rigid(&iso(v0), &rr.at(t0));
    chk!(e0 <= 1e-5 * sc, "sweep-start", "the first edge is not a rigid copy of the profile at the rail's start (deviation {e0})");
    let e1 = rigid(&iso(v1), &rr.at(t1));
    chk!(e1 <= 1e-5 * sc, "sweep-end", "the last edge is not a rigid copy of the profile at the rail's end (deviation {e1})");
    // the copies in between: placed by the frames
    let params: Vec<f64> = (0..samples).map(|i| t0 + (t1 - t0) * i as f64 / (samples - 1) as f64).collect();
    let frames = rl.compute_frenet_frames(&params);
    let mut from = v0;
    for (k, fr) in frames.iter().enumerate().skip(1).take(samples - 2).step_by((samples / 4).max(1)) {
        let m = fr.matrix();
        let copy: NurbsCurve3D<f64> = pc.transformed(&m.into());
        let (d, v) = find_iso(&rs, &RC::of(&copy), from, 12);
        chk!(d <= 1e-4 * sc, "sweep-copy", "copy {k} of {samples} is not on the surface (nearest isoline v={v} departs by {d})");
        chk!(v > from, "sweep-order", "copy {k} at {v} not after {from}");
        from = v;
    }
    c.ev("sweeps", 1);
    Ok(())
}

// ---------------------------------------------------------------- C29

fn same_surface(c: &mut Ctx, a: &RS, b: &RS, ur: (f64, f64), vr: (f64, f64), key: &str) -> R {
    let sc = a.scale();
    for i in 0..=6 {
        for j in 0..=6 {
            let (fx, fy) = if i == 0 || j == 0 || i == 6 || j == 6 { (i as f64 / 6.0, j as f64 / 6.0) } else { (c.rng.unit(), c.rng.unit()) };
            let (u, v) = (ur.0 + (ur.1 - ur.0) * fx, vr.0 + (vr.1 - vr.0) * fy);
            // compare strictly inside, so that both sides of a knot agree
            let e = dist(&a.at(u, v), &b.at(u, v)) / sc;
            c.err("surface", e);
            chk!(e <= 1e-8, key, "{key}: at ({u}, {v}) {:?} became {:?}", a.at(u, v), b.at(u, v));
        }
    }
    c.ev("surface_points", 49);
    Ok(())
}

fn pick_param(c: &mut Ctx, b: &[f64], ends: bool) -> f64 {
    match c.rng.int(0, 5) {
        0 if ends => b[0],
        1 if ends => b[b.len() - 1],
        2 | 3 if b.len() > 2 => {
            let i = c.rng.int(1, b.len() - 2);
            b[i]
        }
        _ => {
            // not within a hair of a knot
            loop {
                let t = c.rng.range(b[0], b[b.len() - 1]);
                if b.iter().all(|k| (k - t).abs() > 1e-3 * minspan(b)) {
                    return t;
                }
            }
        }
    }
}

fn c29_refine(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt::default());
    let mut f = s.s3();
    let rs = RS::of(&f);
    let dir = *c.rng.pick(&[UVDirection::U, UVDirection::V]);
    let isu = matches!(dir, UVDirection::U);
    let (b, k, p) = if isu { (rs.ubreaks(), &s.ku, s.p) } else { (rs.vbreaks(), &s.kv, s.q) };
    let mut ins: Vec<f64> = vec![];
    for _ in 0..c.rng.int(1, 4) {
        let t = pick_param(c, &b, false);
        if mult(k, t) + mult(&ins, t) < p {
            ins.push(t);
        }
    }
    if ins.is_empty() {
        return Err(Stop::Skip("no room"));
    }
    if c.rng.bool(0.5) {
        ins.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    c.describe(format!("refine {} with {ins:?} of {}", if isu { "U" } else { "V" }, s.desc()));
    c.shape(&[s.sig, isu as u64, ins.len() as u64]);
    must!(f.try_refine_knot(ins.clone(), dir), "refine");
    let g = RS::of(&f);
    let mut want = k.clone();
    want.extend(&ins);
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let (got, other, oldother) = if isu { (&g.ku, &g.kv, &s.kv) } else { (&g.kv, &g.ku, &s.ku) };
    chk!(*got == want, "refine-knots", "knots {got:?}, expected {want:?}");
    chk!(other == oldother && g.p == s.p && g.q == s.q, "refine-other", "the other direction changed");
    chk!(g.c.len() == g.ku.len() - g.p - 1 && g.c.iter().all(|r| r.len() == g.kv.len() - g.q - 1), "refine-net", "control net size");
    let d = rs.dom();
    same_surface(c, &rs, &g, d.0, d.1, "refine-shape")
}

fn c29_split(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt { styles: &CLAMPED_KS, ..Default::default() });
    let f = s.s3();
    let rs = RS::of(&f);
    let dir = *c.rng.pick(&[UVDirection::U, UVDirection::V]);
    let isu = matches!(dir, UVDirection::U);
    let b = if isu { rs.ubreaks() } else { rs.vbreaks() };
    let t = pick_param(c, &b, false);
    c.describe(format!("split {} at {t} of {}", if isu { "U" } else { "V" }, s.desc()));
    c.shape(&[s.sig, isu as u64, b.iter().position(|x| *x == t).unwrap_or(99) as u64]);
    let (l, r) = must!(f.try_split(SplitSurfaceOption::new(t, dir)), "split");
    let (a, z) = (RS::of(&l), RS::of(&r));
    let d = rs.dom();
    for (g, n) in [(&a, "first"), (&z, "second")] {
        chk!(g.p == s.p && g.q == s.q && g.c.len() == g.ku.len() - g.p - 1 && g.c.iter().all(|r| r.len() == g.kv.len() - g.q - 1), "split-net", "{n} piece: {} x {} control points, knots {:?} {:?}", g.c.len(), g.c[0].len(), g.ku, g.kv);
    }
    if isu {
        chk!(a.dom() == ((d.0 .0, t), d.1) && z.dom() == ((t, d.0 .1), d.1), "split-domain", "domains {:?} {:?}", a.dom(), z.dom());
        same_surface(c, &a, &rs, (d.0 .0, t), d.1, "split-first")?;
        same_surface(c, &z, &rs, (t, d.0 .1), d.1, "split-second")?;
    } else {
        chk!(a.dom() == (d.0, (d.1 .0, t)) && z.dom() == (d.0, (t, d.1 .1)), "split-domain", "domains {:?} {:?}", a.dom(), z.dom());
        same_surface(c, &a, &rs, d.0, (d.1 .0, t), "split-first")?;
        same_surface(c, &z, &rs, d.0, (t, d.1 .1), "split-second")?;
    }
    Ok(())
}

fn line_check(c: &mut Ctx, rs: &RS, cv: &NurbsCurve3D<f64>, t: f64, isu: bool, key: &str) -> R {
    let rc = RC::of(cv);
    let d = rs.dom();
    let r = if isu { d.1 } else { d.0 };
    chk!(rc.dom() == r, format!("{key}-domain"), "{key}: domain {:?}, surface's is {r:?}", rc.dom());
    chk!(cv.degree() == if isu { rs.q } else { rs.p }, format!("{key}-degree"), "{key}: degree {}", cv.degree());
    for x in rc.params(3) {
        let w = if isu { rs.at(t, x) } else { rs.at(x, t) };
        let g = pv(&cv.point_at(x));
        let e = dist(&g, &w) / rs.scale();
        c.err("isocurve", e);
        chk!(e <= 1e-8, key, "{key} at {t}: curve at {x} is {g:?}, surface {w:?}");
        c.ev("isocurve_points", 1);
    }
    Ok(())
}

fn c29_iso(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt::default());
    let f = s.s3();
    let rs = RS::of(&f);
    for _ in 0..3 {
        let isu = c.rng.bool(0.5);
        let b = if isu { rs.ubreaks() } else { rs.vbreaks() };
        let t = pick_param(c, &b, true);
        c.describe(format!("isocurve {} at {t} of {}", if isu { "U" } else { "V" }, s.desc()));
        c.shape(&[s.sig, isu as u64, b.iter().position(|x| *x == t).unwrap_or(99) as u64]);
        let cv = must!(f.try_isocurve(t, if isu { UVDirection::U } else { UVDirection::V }), "isocurve");
        line_check(c, &rs, &cv, t, isu, "isocurve")?;
    }
    let d = rs.dom();
    c.describe(format!("boundary of {}", s.desc()));
    let bc = must!(f.try_boundary_curves(), "boundary");
    for (i, (t, isu)) in [(d.0 .0, true), (d.1 .0, false), (d.0 .1, true), (d.1 .1, false)].into_iter().enumerate() {
        line_check(c, &rs, &bc[i], t, isu, "boundary")?;
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (Point3::<f64>::origin(), Vector3::<f64>::zeros());
    let _ = c_make::props;
    vec![
        Prop { id: "C26", rule: "tensor-product surfaces with degrees 1-4 per direction, every knot style (repeated, unclamped), weights over several magnitudes; parameters at ends, knots and interiors; orders 0-3; grids 1-9 x 1-9; distinct = (degrees, net size, knot styles, rational, grid)",
            loads: vec![
                Workload { name: "eval", f: c26_eval, quick: 9000, thorough: 45000 },
                Workload { name: "ders", f: c26_ders, quick: 9000, thorough: 45000 },
                Workload { name: "fd", f: c26_fd, quick: 4800, thorough: 24000 },
                Workload { name: "grid", f: c26_grid, quick: 4800, thorough: 24000 },
            ] },
        Prop { id: "C27", rule: "random rectangles, profiles (every knot style, rational, touching the axis), axes (unit or not), sweep angles at quadrant boundaries and between, both senses; distinct = parameter signature",
            loads: vec![
                Workload { name: "plane", f: c27_plane, quick: 4000, thorough: 20000 },
                Workload { name: "extrude", f: c27_extrude, quick: 8000, thorough: 40000 },
                Workload { name: "revolve", f: c27_revolve, quick: 8000, thorough: 40000 },
                Workload { name: "sphere", f: c27_sphere, quick: 2400, thorough: 12000 },
            ] },
        Prop { id: "C28", rule: "2-6 section curves of mixed degree, knots (repeated, unclamped), counts and weights, loft degrees 1-4; sweeps of 3D profiles along straight and wavy rails; distinct = section structures",
            loads: vec![
                Workload { name: "loft", f: c28_loft, quick: 3000, thorough: 15000 },
                Workload { name: "sweep", f: c28_sweep, quick: 900, thorough: 4500 },
            ] },
        Prop { id: "C29", rule: "random surfaces of every knot style; knots to insert, split parameters and isoparameters at knots of any multiplicity, domain ends and interiors; distinct = (structure, direction, parameter class)",
            loads: vec![
                Workload { name: "refine", f: c29_refine, quick: 12000, thorough: 60000 },
                Workload { name: "split", f: c29_split, quick: 12000, thorough: 60000 },
                Workload { name: "iso", f: c29_iso, quick: 12000, thorough: 60000 },
            ] },
    ]
}
