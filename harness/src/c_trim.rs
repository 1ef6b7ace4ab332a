//! C32: trimmed surface tessellations as complexes over the trimmed part of the
//! parameter rectangle (normalised to the unit square for judging).
use crate::c_mesh::{complex, cross2, surf_unit, vertices_on};
use crate::c_region::*;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{Matrix3, Point2, Vector3};
use std::collections::HashMap;

/// a trim: the curve in the surface's parameters and its dense polygon in the unit square
pub struct Trim {
    cv: Option<NurbsCurve2D<f64>>,
    rc: RC,
    pub pts: Vec<V>,
    pub sag: f64,
    pub area: f64,
    pub size: f64,
}
impl Trim {
    /// a boundary scaled to unit size
    pub fn of(l: &Loop, o: &[f64], sc: f64) -> Trim {
        let pts: Vec<V> = l.pts.iter().map(|p| mul(&sub(p, o), 1.0 / sc)).collect();
        Trim { cv: None, rc: l.rcs[0].clone(), size: extent(&pts), pts, sag: l.sag / sc, area: area(&l.rcs) / sc / sc }
    }
}
fn extent(pts: &[V]) -> f64 {
    let (mut lo, mut hi) = (vec![f64::MAX; 2], vec![f64::MIN; 2]);
    for p in pts {
        for i in 0..2 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    dist(&lo, &hi)
}

struct Frame {
    o: (f64, f64),
    l: (f64, f64),
}
impl Frame {
    fn of(s: &NurbsSurface3D<f64>) -> Frame {
        let (u, v) = RS::of(s).dom();
        Frame { o: (u.0, v.0), l: (u.1 - u.0, v.1 - v.0) }
    }
    fn norm(&self, p: &[f64]) -> V {
        vec![(p[0] - self.o.0) / self.l.0, (p[1] - self.o.1) / self.l.1]
    }
}

fn trim_of(f: &Frame, cv: NurbsCurve2D<f64>) -> Trim {
    let rc = RC::of(&cv);
    let (pts, sag) = polygon(std::slice::from_ref(&rc), if rc.p == 1 { 1 } else { 60 });
    let pts: Vec<V> = pts.iter().map(|p| f.norm(p)).collect();
    let area = area(std::slice::from_ref(&rc)) / (f.l.0 * f.l.1);
    Trim { sag: sag / f.l.0.min(f.l.1), area, size: extent(&pts), rc, pts, cv: Some(cv) }
}

/// a loop inside the circle of radius r around o (unit square) as a trim
fn loop_in(c: &mut Ctx, f: &Frame, r: f64, o: &[f64]) -> Result<Trim, Stop> {
    for _ in 0..30 {
        let k = *c.rng.pick(&[0, 1, 2, 3, 4, 7, 8, 9]);
        let Ok(l) = looped_kind(c, k, r * 0.7, o) else { continue };
        let Some(mut cv) = l.cv else { continue };
        cv.transform(&Matrix3::new(f.l.0, 0.0, f.o.0, 0.0, f.l.1, f.o.1, 0.0, 0.0, 1.0));
        // the speed of the parametrisation is arbitrary
        if c.rng.bool(0.3) {
            let (a, s) = domain(&mut c.rng);
            let d = cv.knots_domain();
            let k: Vec<f64> = cv.knots().iter().map(|t| a + (t - d.0) / (d.1 - d.0) * s).collect();
            cv = must!(NurbsCurve2D::try_new(cv.degree(), cv.control_points().clone(), k), "try_new");
        }
        let t = trim_of(f, cv);
        if t.pts.iter().all(|p| dist(p, o) <= r) {
            return Ok(t);
        }
    }
    Err(Stop::Skip("no loop"))
}

fn tess_options(c: &mut Ctx) -> Option<AdaptiveTessellationOptions<f64>> {
    if c.rng.bool(0.2) {
        return None;
    }
    let mut o = AdaptiveTessellationOptions::<f64>::default();
    o.norm_tolerance = 10f64.powf(c.rng.range(-3.0, -1.0));
    o.min_divs_u = c.rng.int(1, 6);
    o.min_divs_v = c.rng.int(1, 6);
    o.min_depth = c.rng.int(0, 3);
    o.max_depth = c.rng.int(0, 6).max(o.min_depth);
    Some(o)
}

/// exterior (or none) and interiors of a trimmed surface, well apart from one another
fn trims(c: &mut Ctx, f: &Frame) -> Result<(Option<Trim>, Vec<Trim>), Stop> {
    let ext = match c.rng.int(0, 6) {
        0 => None,
        1 => {
            // the whole domain
            let (a, b) = (f.o.0 + f.l.0, f.o.1 + f.l.1);
            let mut v = vec![Point2::new(f.o.0, f.o.1), Point2::new(a, f.o.1), Point2::new(a, b), Point2::new(f.o.0, b)];
            if c.rng.bool(0.5) {
                v.reverse();
            }
            v.push(v[0]);
            Some(trim_of(f, NurbsCurve2D::polyline(&v, c.rng.bool(0.5))))
        }
        _ => {
            let r = c.rng.range(0.1, 0.5);
            let o = vec![c.rng.range(r, 1.0 - r), c.rng.range(r, 1.0 - r)];
            Some(loop_in(c, f, r, &o)?)
        }
    };
    let n = if ext.is_none() { c.rng.int(1, 3) } else { c.rng.int(0, 3) };
    let border: Vec<V> = vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![1.0, 1.0], vec![0.0, 1.0]];
    let mut ints: Vec<Trim> = vec![];
    for _ in 0..n {
        for _ in 0..60 {
            let p = match &ext {
                Some(e) => {
                    let a = c.rng.pick(&e.pts).clone();
                    let b = c.rng.pick(&e.pts).clone();
                    lerp(&a, &b, c.rng.unit())
                }
                None => vec![c.rng.unit(), c.rng.unit()],
            };
            let inside = ext.as_ref().is_none_or(|e| polyin(&p, &e.pts)) && ints.iter().all(|i| !polyin(&p, &i.pts));
            let d = ext.iter().chain(ints.iter()).map(|t| polyd(&p, &t.pts)).fold(polyd(&p, &border), f64::min);
            if inside && d > 0.03 {
                let g = c.rng.range(0.3, 0.8);
                if let Ok(t) = loop_in(c, f, d * g, &p) {
                    ints.push(t);
                    break;
                }
            }
        }
    }
    if ext.is_none() && ints.is_empty() {
        return Err(Stop::Skip("no room for a trim"));
    }
    Ok((ext, ints))
}

fn norm_uv(f: &Frame, t: &SurfaceTessellation3D<f64>) -> Vec<(f64, f64)> {
    t.uvs().iter().map(|p| f.norm(&[p.x, p.y])).map(|p| (p[0], p[1])).collect()
}

/// the mesh covers exactly what is inside `ext` and outside `ints`; `dev` is how
/// far the discretised boundary may depart from each trim
pub fn covers(c: &mut Ctx, uv: &[(f64, f64)], faces: &[[usize; 3]], ext: Option<&Trim>, ints: &[Trim], dev: &dyn Fn(&Trim) -> f64) -> R {
    let all: Vec<&Trim> = ext.into_iter().chain(ints.iter()).collect();
    let m = complex(uv, faces, (1.0, 1.0));
    let mut edges: HashMap<(usize, usize), u32> = HashMap::new();
    let mut sum = 0.0;
    for f in &m.faces {
        if f[0] == f[1] || f[1] == f[2] || f[0] == f[2] {
            continue;
        }
        let a = cross2(m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]) / 2.0;
        chk!(a > -1e-14, "trim-orientation", "face {:?} {:?} {:?} is turned over", m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]);
        sum += a;
        for k in 0..3 {
            *edges.entry((f[k], f[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    let mut border: Vec<(V, V)> = vec![];
    for ((a, b), n) in &edges {
        chk!(*n == 1, "trim-edge-twice", "edge {:?}-{:?} is used {n} times in the same direction", m.uv[*a], m.uv[*b]);
        if !edges.contains_key(&(*b, *a)) {
            border.push((vec![m.uv[*a].0, m.uv[*a].1], vec![m.uv[*b].0, m.uv[*b].1]));
        }
    }
    // every border edge runs along a trim (or along the border of an untrimmed domain)
    for (a, b) in &border {
        let mid = lerp(a, b, 0.5);
        if ext.is_none() && (0..2).any(|i| [0.0, 1.0].iter().any(|e| (a[i] - e).abs() < 1e-9 && (b[i] - e).abs() < 1e-9)) {
            continue;
        }
        let (d, t) = all.iter().map(|t| (polyd(&mid, &t.pts).max(polyd(a, &t.pts)).max(polyd(b, &t.pts)), t)).min_by(|x, y| x.0.total_cmp(&y.0)).unwrap_or((f64::MAX, &all[0]));
        c.err("border edge off its trim/size", d / t.size);
        chk!(d <= dev(t), "trim-border", "border edge {a:?}-{b:?} is {d} away from every trim (allowed {})", dev(t));
    }
    // every trim is followed
    for t in &all {
        let step = (t.pts.len() / 80).max(1);
        for p in t.pts.iter().step_by(step) {
            let d = border.iter().map(|(a, b)| segd(p, a, b)).fold(f64::MAX, f64::min);
            c.err("trim off the border/size", d / t.size);
            chk!(d <= dev(t), "trim-followed", "trim point {p:?} is {d} away from the border of the mesh (allowed {})", dev(t));
        }
        c.ev("trims followed", 1);
    }
    let want = ext.map_or(1.0, |e| e.area.abs()) - ints.iter().map(|i| i.area.abs()).sum::<f64>();
    let tol: f64 = all.iter().map(|t| 4.0 * t.size * dev(t)).sum::<f64>() + 1e-9;
    c.err("area", (sum - want).abs() / tol);
    chk!((sum - want).abs() <= tol, "trim-area", "faces cover {sum} of the parameter square, the region has {want} (allowed difference {tol})");
    // membership
    for _ in 0..40 {
        let q: V = if c.rng.bool(0.3) {
            vec![c.rng.unit(), c.rng.unit()]
        } else {
            let t = *c.rng.pick(&all);
            let p = c.rng.pick(&t.pts).clone();
            let r = t.size * 10f64.powf(c.rng.range(-2.0, -0.3));
            vec![p[0] + r * c.rng.range(-1.0, 1.0), p[1] + r * c.rng.range(-1.0, 1.0)]
        };
        if q.iter().any(|x| !(1e-6..=1.0 - 1e-6).contains(x)) || all.iter().any(|t| polyd(&q, &t.pts) <= dev(t) + t.sag + 1e-9) {
            continue;
        }
        let inside = ext.is_none_or(|e| polyin(&q, &e.pts)) && ints.iter().all(|t| !polyin(&q, &t.pts));
        let mut n = 0;
        let mut edge = false;
        for f in &m.faces {
            let s: Vec<f64> = (0..3).map(|k| cross2(m.uv[f[k]], m.uv[f[(k + 1) % 3]], (q[0], q[1]))).collect();
            edge |= s.iter().all(|x| *x > -1e-13) && s.iter().any(|x| x.abs() <= 1e-13);
            n += s.iter().all(|x| *x > 0.0) as usize;
        }
        if edge {
            continue;
        }
        c.ev(if inside { "points inside covered once" } else { "points outside left out" }, 1);
        chk!(n == inside as usize, "trim-cover", "parameter point {q:?} (unit square), {} the region, is in {n} faces", if inside { "inside" } else { "outside" });
    }
    c.ev("faces", m.faces.len() as u64);
    c.ev("border edges", border.len() as u64);
    Ok(())
}

fn surface(c: &mut Ctx) -> Result<NurbsSurface3D<f64>, Stop> {
    let k = c.rng.int(0, 5);
    surf_unit(c, k)
}
fn show(e: &Option<Trim>, i: &[Trim]) -> String {
    let one = |t: &Trim| format!("p={} knots={:?} pts={:?}", t.rc.p, t.rc.k, t.rc.c);
    format!("exterior {:?} interiors {:?}", e.as_ref().map(one), i.iter().map(one).collect::<Vec<_>>())
}

fn c32_trimmed(c: &mut Ctx) -> R {
    let s = surface(c)?;
    let desc = c.desc.clone();
    let f = Frame::of(&s);
    let (ext, ints) = trims(c, &f)?;
    let o = tess_options(c);
    let tol = o.as_ref().map_or(1e-2, |o| o.norm_tolerance);
    c.describe(format!("{desc} options {o:?} {}", show(&ext, &ints)));
    let ts = TrimmedSurface::new(s.clone(), ext.as_ref().and_then(|t| t.cv.clone()), ints.iter().filter_map(|t| t.cv.clone()).collect());
    let t = must!(ts.tessellate(o), "tessellate");
    vertices_on(c, &RS::of(&s), &t, true)?;
    let uv = norm_uv(&f, &t);
    covers(c, &uv, t.faces(), ext.as_ref(), &ints, &|t: &Trim| if t.rc.p == 1 { 1e-9 } else { 0.5 * tol.sqrt() * t.size + t.sag + 1e-9 })?;
    c.shape(&[ints.len() as u64, ext.is_some() as u64, t.faces().len() as u64]);
    Ok(())
}

fn c32_constrained(c: &mut Ctx) -> R {
    let s = surface(c)?;
    let desc = c.desc.clone();
    let f = Frame::of(&s);
    let (ext, ints) = trims(c, &f)?;
    let o = tess_options(c);
    let tol = o.as_ref().map_or(1e-2, |o| o.norm_tolerance);
    let list = |c: &mut Ctx, t: &Trim| -> Option<Vec<f64>> {
        if c.rng.bool(0.3) {
            return None;
        }
        let (a, b) = t.rc.dom();
        let n = c.rng.int(1, 5);
        let mut l = vec![];
        let br = t.rc.breaks();
        for w in br.windows(2) {
            let m = if t.rc.p == 1 { c.rng.int(1, 3) } else { n + 4 };
            l.extend((0..m).map(|i| w[0] + (w[1] - w[0]) * (i as f64 + if i > 0 { c.rng.range(-0.2, 0.2) } else { 0.0 }) / m as f64));
        }
        l[0] = a;
        // with or without the end of the closed curve
        if c.rng.bool(0.5) {
            l.push(b);
        }
        Some(l)
    };
    let le = ext.as_ref().and_then(|t| list(c, t));
    let li: Vec<Option<Vec<f64>>> = ints.iter().map(|t| list(c, t)).collect();
    c.describe(format!("{desc} options {o:?} constraints {le:?} {li:?} {}", show(&ext, &ints)));
    let ts = TrimmedSurface::new(s.clone(), ext.as_ref().and_then(|t| t.cv.clone()), ints.iter().filter_map(|t| t.cv.clone()).collect());
    // the wrong number of constraint lists is reported
    if c.rng.bool(0.1) {
        let r = ts.constrained_tessellate(TrimmedSurfaceConstraints::new(le.clone(), vec![None; ints.len() + 1]), o.clone());
        chk!(r.is_err(), "constraint-count", "one list too many accepted");
    }
    let cons = match c.rng.int(0, 2) {
        0 => TrimmedSurfaceConstraints::new(le.clone(), li.clone()),
        1 => TrimmedSurfaceConstraints::default().with_interiors(li.clone()).with_exterior(le.clone()),
        _ => {
            let mut k = TrimmedSurfaceConstraints::default().with_exterior(le.clone());
            li.iter().for_each(|l| k.push_interior(l.clone()));
            k
        }
    };
    let t = must!(ts.constrained_tessellate(cons, o), "constrained_tessellate");
    vertices_on(c, &RS::of(&s), &t, true)?;
    let uv = norm_uv(&f, &t);
    // judged against the polygons through the listed points
    let poly = |t: &Trim, l: &Option<Vec<f64>>| -> Trim {
        let mut n = Trim { cv: t.cv.clone(), rc: t.rc.clone(), pts: t.pts.clone(), sag: t.sag, area: t.area, size: t.size };
        if let Some(l) = l {
            n.pts = l.iter().map(|x| f.norm(&t.rc.at(*x))).collect();
            n.area = polya(&n.pts);
            n.sag = -1.0;
        }
        n
    };
    let e2 = ext.as_ref().map(|t| poly(t, &le));
    let i2: Vec<Trim> = ints.iter().zip(&li).map(|(t, l)| poly(t, l)).collect();
    for t in e2.iter().chain(&i2).filter(|t| t.sag < 0.0) {
        for p in &t.pts {
            c.ev("constrained trim vertices", 1);
            let d = uv.iter().map(|q| dist(p, &[q.0, q.1])).fold(f64::MAX, f64::min);
            chk!(d < 1e-9, "constraint-vertex", "no vertex at the listed trim point {p:?} (nearest {d})");
        }
    }
    // (distances between the polygons keep them apart: skip the rare crossings)
    let all: Vec<&Trim> = e2.iter().chain(&i2).collect();
    for (i, a) in all.iter().enumerate() {
        for b in &all[i + 1..] {
            if a.pts.iter().any(|p| polyd(p, &b.pts) < 1e-6) || crossing(&a.pts, &b.pts) {
                return Err(Stop::Skip("coarse trims cross"));
            }
        }
        if crossing(&a.pts, &a.pts) {
            return Err(Stop::Skip("coarse trim crosses itself"));
        }
    }
    covers(c, &uv, t.faces(), e2.as_ref(), &i2, &|t: &Trim| if t.rc.p == 1 || t.sag < 0.0 { 1e-9 } else { 0.5 * tol.sqrt() * t.size + t.sag + 1e-9 })?;
    c.shape(&[ints.len() as u64, ext.is_some() as u64, t.faces().len() as u64]);
    Ok(())
}

/// closed polygons crossing properly
fn crossing(a: &[V], b: &[V]) -> bool {
    let cr = |a: &V, b: &V, c: &V| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    (0..a.len()).any(|i| {
        let (p, q) = (&a[i], &a[(i + 1) % a.len()]);
        (0..b.len()).any(|j| {
            let (r, s) = (&b[j], &b[(j + 1) % b.len()]);
            cr(p, q, r) * cr(p, q, s) < 0.0 && cr(r, s, p) * cr(r, s, q) < 0.0
        })
    })
}

/// a graph over the plane spanned by x,y: planar or curved
fn graph(c: &mut Ctx, flat: bool) -> Result<(NurbsSurface3D<f64>, V, V, V, V), Stop> {
    let (x, y, z) = frame3(&mut c.rng);
    let sc = *c.rng.pick(&[0.5, 1.0, 5.0]);
    let o: V = (0..3).map(|_| c.rng.range(-3.0, 3.0)).collect();
    let (p, q) = if flat { (1, 1) } else { (c.rng.int(1, 3), c.rng.int(1, 3)) };
    let (n, m) = if flat { (2, 2) } else { (p + 1 + c.rng.int(0, 2), q + 1 + c.rng.int(0, 2)) };
    let (a, l) = domain(&mut c.rng);
    let (b, k) = domain(&mut c.rng);
    let ku = knots(&mut c.rng, p, n, KS::ClampedUniform, a, l);
    let kv = knots(&mut c.rng, q, m, KS::ClampedUniform, b, k);
    let rows = (0..n)
        .map(|i| {
            (0..m)
                .map(|j| {
                    let h = if flat { 0.0 } else { c.rng.range(-0.15, 0.15) * sc };
                    let w = add(&add(&o, &mul(&x, 4.0 * sc * (i as f64 / (n - 1) as f64 - 0.5))), &add(&mul(&y, 4.0 * sc * (j as f64 / (m - 1) as f64 - 0.5)), &mul(&z, h)));
                    nalgebra::Point4::new(w[0], w[1], w[2], 1.0)
                })
                .collect()
        })
        .collect();
    c.describe(format!("graph o={o:?} x={x:?} y={y:?} sc={sc} degrees {p},{q} net {n}x{m} knots {ku:?} {kv:?}"));
    let s = NurbsSurface3D::new(p, q, ku, kv, rows);
    Ok((s, o, mul(&x, sc), mul(&y, sc), mul(&z, sc)))
}

/// lift a planar loop into space
fn lift(cv: &NurbsCurve2D<f64>, o: &[f64], x: &[f64], y: &[f64], shift: &[f64]) -> Result<NurbsCurve3D<f64>, Stop> {
    let pts = cv
        .control_points()
        .iter()
        .map(|h| {
            let (a, b, w) = (h.x / h.z, h.y / h.z, h.z);
            let p = add(&add(o, shift), &add(&mul(x, a), &mul(y, b)));
            nalgebra::Point4::new(p[0] * w, p[1] * w, p[2] * w, w)
        })
        .collect();
    Ok(must!(NurbsCurve3D::try_new(cv.degree(), pts, cv.knots().to_vec()), "lift"))
}

fn c32_project(c: &mut Ctx) -> R {
    let flat = c.rng.bool(0.6);
    let (s, o, x, y, z) = graph(c, flat)?;
    let desc = c.desc.clone();
    let rs = RS::of(&s);
    let sc = norm(&x);
    // direction onto the surface: tilted, of any length, either side
    let side = c.rng.sign();
    let tilt = add(&mul(&x, c.rng.range(-0.4, 0.4)), &mul(&y, c.rng.range(-0.4, 0.4)));
    let len = 10f64.powf(c.rng.range(-1.0, 1.0));
    let dir = mul(&unit(&add(&mul(&z, side), &tilt)), len);
    // off the surface, or on it
    let height = if flat && c.rng.bool(0.25) { 0.0 } else { c.rng.range(0.3, 6.0) };
    // the curve's plane is height above the surface, moved back along the direction
    let back = mul(&dir, -height * sc / (dot(&dir, &unit(&z)).abs()));
    let mk = |c: &mut Ctx, r: f64, o2: &[f64]| -> Result<NurbsCurve2D<f64>, Stop> {
        for _ in 0..20 {
            let k = if flat { *c.rng.pick(&[0, 1, 2, 3, 4, 7, 8]) } else { *c.rng.pick(&[2, 3, 8]) };
            if let Ok(Loop { cv: Some(cv), .. }) = looped_kind(c, k, r, o2) {
                // its control points are projected, so they have to be above the surface
                if cv.dehomogenized_control_points().iter().all(|p| p.x.abs() < 1.8 && p.y.abs() < 1.8) {
                    return Ok(cv);
                }
            }
        }
        Err(Stop::Skip("no loop"))
    };
    let e = mk(c, 1.0, &[0.0, 0.0])?;
    let m = if c.rng.bool(0.5) { 0 } else { c.rng.int(1, 3) };
    let i = (0..m).map(|k| mk(c, 0.1, &[0.3 * k as f64, -0.2 * k as f64])).collect::<Result<Vec<_>, _>>()?;
    let e3 = lift(&e, &o, &x, &y, &back)?;
    let i3 = i.iter().map(|i| lift(i, &o, &x, &y, &back)).collect::<Result<Vec<_>, _>>()?;
    c.describe(format!("{desc} direction {dir:?} exterior {e3:?} interiors {i3:?}"));
    let e3 = if i3.is_empty() || c.rng.bool(0.7) { Some(e3) } else { None };
    let v = Vector3::new(dir[0], dir[1], dir[2]);
    let ts = must!(TrimmedSurface::try_projection(s.clone(), v, e3.clone(), i3.clone()), "try_projection");
    if c.rng.bool(0.1) {
        chk!(TrimmedSurface::try_projection(s.clone(), v, None, vec![]).is_err(), "trim-none", "a projection of no curve is accepted");
        chk!(TrimmedSurface::try_projection(s.clone(), v * 0.0, e3.clone(), i3.clone()).is_err(), "trim-direction", "a projection along no direction is accepted");
    }
    follows(c, &rs, &ts, e3.as_ref(), &i3, flat, sc, &|d: &V| norm(&cross(&unit(&dir), d)), "projection")
}

/// a strip folded several times: the trim lands on the sheet the curve meets first
fn c32_sheets(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let sc = *c.rng.pick(&[0.5, 1.0, 5.0]);
    let o: V = (0..3).map(|_| c.rng.range(-3.0, 3.0)).collect();
    let n = c.rng.int(2, 4);
    let mut hs: Vec<f64> = vec![0.0];
    for _ in 1..n {
        let h = hs[hs.len() - 1] + c.rng.range(1.0, 4.0);
        hs.push(h);
    }
    if c.rng.bool(0.5) {
        hs.reverse();
    }
    let at = |a: f64, b: f64, h: f64| p3(&add(&o, &mul(&add(&add(&mul(&x, a), &mul(&y, b)), &mul(&z, h)), sc)));
    // to and fro along x, one sheet above another
    let mut prof = vec![];
    for (i, h) in hs.iter().enumerate() {
        let e = if i % 2 == 0 { 2.0 } else { -2.0 };
        prof.extend([(-e, *h), (e, *h)]);
    }
    let pts: Vec<_> = prof.iter().map(|(a, h)| at(*a, -2.0, *h)).collect();
    let d = mul(&y, 4.0 * sc);
    let s = NurbsSurface3D::extrude(&NurbsCurve3D::polyline(&pts, true), &v3(&d));
    let rs = RS::of(&s);
    let mut l = None;
    for _ in 0..20 {
        let k = *c.rng.pick(&[0, 1, 2, 3, 8]);
        if let Ok(Loop { cv: Some(cv), .. }) = looped_kind(c, k, 1.0, &[0.0, 0.0]) {
            if cv.dehomogenized_control_points().iter().all(|p| p.x.abs() < 1.8 && p.y.abs() < 1.8) {
                l = Some(cv);
                break;
            }
        }
    }
    let Some(cv) = l else { return Err(Stop::Skip("no loop")) };
    // above the topmost sheet looking down, or below the lowest looking up
    let down = c.rng.bool(0.5);
    let (lo, hi) = (hs.iter().cloned().fold(f64::MAX, f64::min), hs.iter().cloned().fold(f64::MIN, f64::max));
    let gap = c.rng.range(0.2, 5.0);
    let (first, from) = if down { (hi, hi + gap) } else { (lo, lo - gap) };
    let dir = mul(&z, if down { -1.0 } else { 1.0 } * 10f64.powf(c.rng.range(-1.0, 1.0)));
    let e3 = lift(&cv, &o, &mul(&x, sc), &mul(&y, sc), &mul(&z, from * sc))?;
    c.describe(format!("sheets at {hs:?} o={o:?} x={x:?} y={y:?} scale {sc}; curve at {from}, direction {dir:?}: {e3:?}"));
    let ts = must!(TrimmedSurface::try_projection(s, Vector3::new(dir[0], dir[1], dir[2]), Some(e3.clone()), vec![]), "try_projection");
    let want = (first - from).abs() * sc;
    c.shape(&[n as u64, down as u64, cv.degree() as u64]);
    c.ev("projections onto folded strips", 1);
    follows(c, &rs, &ts, Some(&e3), &[], true, sc, &|d: &V| norm(&cross(&z, d)).max((norm(d) - want).abs()), "first-sheet")
}

/// a surface without trims, in its own right
fn c32_untrimmed(c: &mut Ctx) -> R {
    let s = surface(c)?;
    let f = Frame::of(&s);
    let o = tess_options(c);
    let t = must!(TrimmedSurface::from(s.clone()).tessellate(o), "tessellate");
    vertices_on(c, &RS::of(&s), &t, true)?;
    let uv = norm_uv(&f, &t);
    let m = complex(&uv, t.faces(), (1.0, 1.0));
    let sum: f64 = m.faces.iter().map(|f| cross2(m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]) / 2.0).sum();
    chk!((sum - 1.0).abs() <= 1e-9, "untrimmed-area", "the faces cover {sum} of the parameter square of an untrimmed surface");
    c.ev("untrimmed surfaces", 1);
    c.shape(&[t.faces().len() as u64]);
    Ok(())
}

fn follows(c: &mut Ctx, rs: &RS, ts: &TrimmedSurface<f64>, e3: Option<&NurbsCurve3D<f64>>, i3: &[NurbsCurve3D<f64>], flat: bool, sc: f64, off: &dyn Fn(&V) -> f64, key: &str) -> R {
    chk!(ts.exterior().is_some() == e3.is_some() && ts.interiors().len() == i3.len(), "trim-count", "{} interiors for {}", ts.interiors().len(), i3.len());
    let ((u0, u1), (v0, v1)) = rs.dom();
    for (t, g) in ts.exterior().into_iter().chain(ts.interiors()).zip(e3.into_iter().chain(i3)) {
        let (rt, rg) = (RC::of(t), RC::of(g));
        let (dt, dg) = (rt.dom(), rg.dom());
        chk!((dt.0 - dg.0).abs() <= 1e-9 * (dg.1 - dg.0) && (dt.1 - dg.1).abs() <= 1e-9 * (dg.1 - dg.0), "trim-domain", "{dt:?} for {dg:?}");
        let ts: Vec<f64> = if flat { (0..=40).map(|i| dg.0 + (dg.1 - dg.0) * i as f64 / 40.0).collect() } else { rg.breaks() };
        for x in ts {
            let uv = rt.at(x);
            let (u, v) = (uv[0].clamp(u0, u1), uv[1].clamp(v0, v1));
            let p = rs.at(u, v);
            let d = sub(&p, &rg.at(x));
            let e = off(&d);
            c.err("image off the given curve/size", e / sc);
            c.ev("trim points whose image was checked", 1);
            chk!(e <= 2e-4 * sc, key, "at {x} the trim's image {p:?} is {e} off the given point {:?}", rg.at(x));
        }
    }
    Ok(())
}

fn c32_map(c: &mut Ctx) -> R {
    let flat = c.rng.bool(0.5);
    let (s, o, x, y, z) = graph(c, flat)?;
    let desc = c.desc.clone();
    let rs = RS::of(&s);
    let sc = norm(&x);
    let h = if flat { mul(&z, c.rng.range(-1.0, 1.0)) } else { vec![0.0; 3] };
    let mk = |c: &mut Ctx, r: f64| -> Result<NurbsCurve2D<f64>, Stop> {
        for _ in 0..20 {
            let k = if flat { *c.rng.pick(&[0, 1, 2, 3, 4, 7, 8]) } else { *c.rng.pick(&[2, 3, 8]) };
            if let Ok(Loop { cv: Some(cv), .. }) = looped_kind(c, k, r, &[0.0, 0.0]) {
                // its control points are projected, so they have to be above the surface
                if cv.dehomogenized_control_points().iter().all(|p| p.x.abs() < 1.8 && p.y.abs() < 1.8) {
                    return Ok(cv);
                }
            }
        }
        Err(Stop::Skip("no loop"))
    };
    let lift_on = |cv: &NurbsCurve2D<f64>| -> Result<NurbsCurve3D<f64>, Stop> {
        if flat {
            return lift(cv, &o, &x, &y, &h);
        }
        // polygon with its vertices on the curved surface
        let ((u0, u1), (v0, v1)) = rs.dom();
        let pts: Vec<_> = cv.dehomogenized_control_points().iter().map(|q| p3(&rs.at(u0 + (u1 - u0) * (0.5 + q.x / 4.0), v0 + (v1 - v0) * (0.5 + q.y / 4.0)))).collect();
        Ok(NurbsCurve3D::polyline(&pts, true))
    };
    let e3 = lift_on(&mk(c, 1.0)?)?;
    let m = if c.rng.bool(0.5) { 0 } else { c.rng.int(1, 3) };
    let i3 = (0..m).map(|k| lift_on(&mk(c, 0.1 + 0.1 * k as f64)?)).collect::<Result<Vec<_>, _>>()?;
    c.describe(format!("{desc} exterior {e3:?} interiors {i3:?}"));
    let e3 = if i3.is_empty() || c.rng.bool(0.7) { Some(e3) } else { None };
    let ts = must!(TrimmedSurface::try_map_closest_point(s.clone(), e3.clone(), i3.clone()), "try_map_closest_point");
    if c.rng.bool(0.1) {
        chk!(TrimmedSurface::try_map_closest_point(s.clone(), None, vec![]).is_err(), "trim-none", "a map of no curve is accepted");
    }
    let n = unit(&cross(&x, &y));
    if flat {
        follows(c, &rs, &ts, e3.as_ref(), &i3, true, sc, &|d: &V| norm(&cross(&n, d)), "closest-point")
    } else {
        follows(c, &rs, &ts, e3.as_ref(), &i3, false, sc, &|d: &V| norm(d), "closest-point")
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "distinct (trim shapes; mesh size; surface shape) combinations",
        loads: vec![
            Workload { name: "trimmed", f: c32_trimmed, quick: 900, thorough: 15000 },
            Workload { name: "constrained", f: c32_constrained, quick: 600, thorough: 10000 },
            Workload { name: "project", f: c32_project, quick: 360, thorough: 4000 },
            Workload { name: "map", f: c32_map, quick: 300, thorough: 4000 },
            Workload { name: "sheets", f: c32_sheets, quick: 120, thorough: 2000 },
            Workload { name: "untrimmed", f: c32_untrimmed, quick: 120, thorough: 2000 },
        ],
    }]
}
