//! C15-C17 (inversion, affine maps, conversions) and C25 (compound curves).
use crate::c_basic::structure;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim};
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix3, Matrix4, U1};

// ---------------------------------------------------------------- generators

/// a curve of `dim` dimensions starting at `a` and ending at `b`
pub fn piece(c: &mut Ctx, a: &[f64], b: &[f64], straight: bool) -> Spec {
    let dim = a.len();
    let r = &mut c.rng;
    let kind = if straight { 0 } else { r.int(0, 3) };
    let style = match kind {
        0 => KS::Bezier,
        1 => KS::ClampedUniform,
        2 => KS::ClampedRandom,
        _ => KS::ClampedRepeat,
    };
    let p = if straight { 1 } else { r.int(1, 4) };
    let n = if style == KS::Bezier { p + 1 } else { p + 1 + r.int(1, 4) };
    let (o, l) = domain(r);
    let k = knots(r, p, n, style, o, l);
    let d = dist(a, b);
    let rational = r.bool(0.4);
    let mut pts = vec![];
    let mut w = vec![];
    for i in 0..n {
        let f = i as f64 / (n - 1) as f64;
        let mut q = lerp(a, b, f);
        if i > 0 && i + 1 < n {
            for x in q.iter_mut() {
                *x += r.range(-0.3, 0.3) * d;
            }
        }
        if i == 0 { q = a.to_vec(); }
        if i + 1 == n { q = b.to_vec(); }
        pts.push(q);
        w.push(if rational { r.range(0.5, 2.0) } else { 1.0 });
    }
    let _ = dim;
    Spec { p, knots: k, pts, w, style, rational }
}

/// chain of connected specs through random vertices
pub fn chain(c: &mut Ctx, dim: usize, closed: bool) -> Vec<Spec> {
    let n = c.rng.int(if closed { 2 } else { 1 }, 6);
    let sc = *c.rng.pick(&[1.0, 10.0, 100.0]);
    let mut vs: Vec<V> = vec![];
    while vs.len() < n + 1 {
        let q: V = (0..dim).map(|_| c.rng.range(-1.0, 1.0) * sc).collect();
        if vs.iter().all(|p| dist(p, &q) > 0.05 * sc) {
            vs.push(q);
        }
    }
    if closed {
        vs[n] = vs[0].clone();
    }
    (0..n).map(|i| piece(c, &vs[i].clone(), &vs[i + 1].clone(), false)).collect()
}

trait Mk: DimName + DimNameSub<U1>
where
    DefaultAllocator: Allocator<Self> + Allocator<DimNameDiff<Self, U1>>,
{
    fn curve(s: &Spec) -> NurbsCurve<f64, Self>;
}
impl Mk for Const<3> {
    fn curve(s: &Spec) -> NurbsCurve<f64, Self> {
        s.c2()
    }
}
impl Mk for Const<4> {
    fn curve(s: &Spec) -> NurbsCurve<f64, Self> {
        s.c3()
    }
}

fn cdom<D>(cc: &CompoundCurve<f64, D>) -> (f64, f64)
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    (cc.spans()[0].knots_domain().0, cc.spans()[cc.spans().len() - 1].knots_domain().1)
}

/// the compound curve is one path: spans join and domains are contiguous
pub fn path_ok<D>(cc: &CompoundCurve<f64, D>, tol: f64, key: &str) -> R
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    for w in cc.spans().windows(2) {
        let (a, b) = (w[0].knots_domain(), w[1].knots_domain());
        chk!((a.1 - b.0).abs() <= 1e-9 * (1.0 + a.1.abs()), format!("{key}-domain"), "{key}: span domains {a:?} and {b:?} are not contiguous");
        let (p, q) = (pv(&w[0].point_at(a.1)), pv(&w[1].point_at(b.0)));
        chk!(dist(&p, &q) <= tol, format!("{key}-join"), "{key}: consecutive spans do not join: {p:?} then {q:?}");
    }
    Ok(())
}

fn c25_new_in<D: Mk>(c: &mut Ctx, dim: usize) -> R
where
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let closed = c.rng.bool(0.5);
    let mut specs = chain(c, dim, closed);
    let mut order: Vec<usize> = (0..specs.len()).collect();
    let mut mode = c.rng.int(0, 3);
    let slit = !closed && specs.len() > 1 && c.rng.bool(0.3);
    if slit {
        // an open path whose ends all but meet (given in order: the joining
        // tolerance may take the gap for a joint)
        mode = 0;
        let a0 = specs[0].pts[0].clone();
        let g = norm(&a0).max(1.0) * 10f64.powf(c.rng.range(-7.0, -3.0));
        let k = specs.len() - 1;
        let a = specs[k].pts[0].clone();
        let mut e = a0;
        let ax = c.rng.int(0, dim - 1);
        e[ax] += g;
        specs[k] = piece(c, &a, &e, false);
    }
    if mode & 1 == 1 {
        c.rng.shuffle(&mut order);
    }
    let inv: Vec<bool> = (0..specs.len()).map(|_| mode >= 2 && c.rng.bool(0.5)).collect();
    let curves: Vec<NurbsCurve<f64, D>> = order
        .iter()
        .map(|&i| {
            let cv = D::curve(&specs[i]);
            if inv[i] { cv.inverse() } else { cv }
        })
        .collect();
    c.describe(format!("closed={closed} order={order:?} inverted={inv:?} spans={:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&[dim as u64, closed as u64, specs.len() as u64, mode as u64, order.iter().enumerate().map(|(i, o)| (i as u64 + 1) * (*o as u64)).sum(), inv.iter().fold(0, |a, b| a * 2 + *b as u64)]);
    let cc = CompoundCurve::new(curves.clone());
    let sc = specs.iter().flat_map(|s| s.pts.iter().map(|p| norm(p))).fold(0.0, f64::max);
    chk!(cc.spans().len() == specs.len(), "compound-count", "{} of {} connected spans kept", cc.spans().len(), specs.len());
    path_ok(&cc, 1e-6 * sc, "compound")?;
    for s in cc.spans() {
        structure(s, "compound span")?;
    }
    // each input is traced exactly once, as it is or reversed
    let mut used = vec![false; curves.len()];
    for s in cc.spans() {
        let (a, b) = s.knots_domain();
        let hit = (0..curves.len()).find(|&i| {
            if used[i] { return false; }
            let o = &curves[i];
            let (oa, ob) = o.knots_domain();
            if ((b - a) - (ob - oa)).abs() > 1e-9 * (ob - oa) { return false; }
            let rc = RC::of(o);
            [false, true].iter().any(|rev| (0..=6).all(|j| {
                let f = j as f64 / 6.0;
                let g = if *rev { 1.0 - f } else { f };
                dist(&pv(&s.point_at(a + (b - a) * f)), &rc.at(oa + (ob - oa) * g)) <= 1e-8 * sc
            }))
        });
        match hit {
            Some(i) => used[i] = true,
            None => return Err(Stop::V("compound-spans".into(), format!("a span of the result matches no (unused) input curve: {:?}", s.knots()))),
        }
    }
    // closedness
    let (d0, d1) = cdom(&cc);
    let gap = dist(&RC::of(&cc.spans()[0]).at(d0), &RC::of(&cc.spans()[cc.spans().len() - 1]).at(d1));
    if closed {
        chk!(cc.is_closed(), "compound-closed", "closed path not reported closed");
    } else if slit {
        c.ev("slit paths", 1);
        chk!(cc.is_closed() == (gap < 1e-8 * sc), "compound-slit", "a path whose ends are {gap:e} apart: is_closed = {}", cc.is_closed());
    } else {
        chk!(!cc.is_closed(), "compound-not-closed", "open path reported closed");
    }
    // evaluation
    let refs: Vec<RC> = cc.spans().iter().map(RC::of).collect();
    for _ in 0..10 {
        let t = c.rng.range(d0, d1);
        let i = (0..refs.len()).find(|i| t <= refs[*i].dom().1).unwrap();
        match cc.point_at(t) {
            None => return Err(Stop::V("compound-eval".into(), format!("no point at {t} inside the domain {:?}", (d0, d1)))),
            Some(p) => chk!(dist(&pv(&p), &refs[i].at(t)) <= 1e-9 * sc, "compound-eval", "at {t}: {:?}, span {i} is at {:?}", pv(&p), refs[i].at(t)),
        }
    }
    for (i, r) in refs.iter().enumerate() {
        for t in [r.dom().0, r.dom().1] {
            let p = cc.point_at(t);
            chk!(p.is_some() && dist(&pv(&p.unwrap()), &r.at(t)) <= 1e-6 * sc, "compound-eval-joint", "at the end {t} of span {i}");
        }
    }
    chk!(cc.point_at(d0 - 0.5).is_none() && cc.point_at(d1 + 0.5).is_none(), "compound-eval-outside", "a point outside the domain");
    // length
    let l = must!(cc.try_length(), "compound-length");
    let parts: f64 = cc.spans().iter().map(|s| s.try_length().unwrap_or(f64::NAN)).sum();
    chk!((l - parts).abs() <= 1e-9 * l, "compound-length", "length {l}, spans sum to {parts}");
    // bounding box
    let bb = BoundingBox::from(&cc);
    for r in &refs {
        for t in r.params(3) {
            let q = r.at(t);
            for k in 0..dim {
                chk!(q[k] >= bb.min()[k] - 1e-9 * sc && q[k] <= bb.max()[k] + 1e-9 * sc, "compound-bbox", "point {q:?} outside the bounding box");
            }
        }
    }
    // ends
    let (f, e) = cc.end_points();
    chk!(dist(&pv(&f), &refs[0].at(d0)) <= 1e-9 * sc && dist(&pv(&e), &refs[refs.len() - 1].at(d1)) <= 1e-9 * sc, "compound-ends", "end points");
    c.ev("compounds", 1);
    c.ev("spans", specs.len() as u64);
    Ok(())
}
fn c25_new(c: &mut Ctx) -> R {
    if c.rng.bool(0.6) { c25_new_in::<Const<3>>(c, 2) } else { c25_new_in::<Const<4>>(c, 3) }
}

fn c25_closest_in<D: Mk>(c: &mut Ctx, dim: usize) -> R
where
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let closed = c.rng.bool(0.5);
    let specs = chain(c, dim, closed);
    c.describe(format!("closed={closed} spans={:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    let cc = CompoundCurve::new(specs.iter().map(D::curve).collect());
    let sc = specs.iter().flat_map(|s| s.pts.iter().map(|p| norm(p))).fold(0.0, f64::max);
    c.shape(&[dim as u64, closed as u64, specs.len() as u64, 7]);
    for _ in 0..4 {
        let q: V = (0..dim).map(|_| c.rng.range(-1.3, 1.3) * sc).collect();
        let qp = nalgebra::OPoint::<f64, DimNameDiff<D, U1>>::from_slice(&q);
        let parts: Vec<f64> = cc.spans().iter().filter_map(|s| s.find_closest_point(&qp).ok()).map(|p| dist(&pv(&p), &q)).collect();
        if parts.len() < cc.spans().len() {
            continue;
        }
        let best = parts.iter().cloned().fold(f64::MAX, f64::min);
        let got = must!(cc.find_closest_point(&qp), "compound-closest");
        let d = dist(&pv(&got), &q);
        chk!((d - best).abs() <= 1e-6 * sc, "compound-closest", "closest point of {q:?} is at distance {d}, its spans offer {best}");
        c.ev("closest_queries", 1);
    }
    Ok(())
}
fn c25_closest(c: &mut Ctx) -> R {
    if c.rng.bool(0.6) { c25_closest_in::<Const<3>>(c, 2) } else { c25_closest_in::<Const<4>>(c, 3) }
}

fn c25_trim_in<D: Mk>(c: &mut Ctx, dim: usize) -> R
where
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let closed = c.rng.bool(0.6);
    let specs = chain(c, dim, closed);
    let cc = CompoundCurve::new(specs.iter().map(D::curve).collect());
    let sc = specs.iter().flat_map(|s| s.pts.iter().map(|p| norm(p))).fold(0.0, f64::max);
    let (d0, d1) = cdom(&cc);
    let refs: Vec<RC> = cc.spans().iter().map(RC::of).collect();
    let joints: Vec<f64> = refs.iter().flat_map(|r| [r.dom().0, r.dom().1]).collect();
    let kn: Vec<f64> = refs.iter().flat_map(|r| r.breaks()).collect();
    let mut par = |c: &mut Ctx| match c.rng.int(0, 5) {
        0 => *c.rng.pick(&joints),
        1 => *c.rng.pick(&kn),
        _ => c.rng.range(d0, d1),
    };
    let (s, t) = (par(c), par(c));
    c.describe(format!("trim {:?} of {:?}", (s, t), specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&[dim as u64, specs.len() as u64, (s < t) as u64, joints.iter().position(|x| *x == s).unwrap_or(99) as u64, joints.iter().position(|x| *x == t).unwrap_or(99) as u64]);
    // slivers between a joint and a nearby parameter are numerically meaningless
    let near = |x: f64| kn.iter().any(|k| *k != x && (k - x).abs() < 1e-4 * (d1 - d0).min(1.0));
    if near(s) || near(t) || (s != t && (s - t).abs() < 1e-3 * (d1 - d0)) || s == t {
        return Err(Stop::Skip("degenerate range"));
    }
    let r = must!(cc.try_trim_range((s, t)), "compound-trim");
    let want: Vec<(f64, f64)> = if s < t { vec![(s, t)] } else { vec![(s, d1), (d0, t)] };
    let inside = |x: f64| want.iter().any(|w| x > w.0 && x < w.1);
    let mut cover = 0.0;
    for p in &r {
        structure(p, "compound trim")?;
        let (a, b) = p.knots_domain();
        cover += b - a;
        if b - a <= 1e-9 * (d1 - d0) { continue; }
        for j in 0..=8 {
            let x = a + (b - a) * (j as f64 + 0.001) / 8.002;
            chk!(inside(x), "compound-trim-range", "piece {:?} leaves the requested range {:?} (domain {:?})", (a, b), (s, t), (d0, d1));
            let i = (0..refs.len()).find(|i| x <= refs[*i].dom().1).unwrap();
            let (g, w) = (pv(&p.point_at(x)), refs[i].at(x));
            chk!(dist(&g, &w) <= 1e-8 * sc, "compound-trim-shape", "piece at {x}: {g:?}, original {w:?}");
        }
    }
    let tot: f64 = want.iter().map(|w| w.1 - w.0).sum();
    chk!((cover - tot).abs() <= 1e-7 * (d1 - d0), "compound-trim-cover", "pieces {:?} cover {cover} of {tot} for range {:?}", r.iter().map(|p| p.knots_domain()).collect::<Vec<_>>(), (s, t));
    c.ev("compound_trims", 1);
    Ok(())
}
fn c25_trim(c: &mut Ctx) -> R {
    if c.rng.bool(0.6) { c25_trim_in::<Const<3>>(c, 2) } else { c25_trim_in::<Const<4>>(c, 3) }
}

/// spans with unclamped knots: the path is made of their domains
fn c25_unclamped(c: &mut Ctx) -> R {
    // cut one unclamped spline trace into consecutive windows of control points
    let p = c.rng.int(1, 4);
    let n = c.rng.int(2, 4);
    let segs = c.rng.int(2, 4);
    let total = segs * n + p;
    let pts: Vec<V> = {
        let mut cur = vec![0.0, 0.0];
        (0..total).map(|_| { cur[0] += c.rng.range(0.5, 2.0); cur[1] += c.rng.range(-1.5, 1.5); cur.clone() }).collect()
    };
    // segment s uses control points [s*n, s*n+n+p), uniform knots
    let specs: Vec<Spec> = (0..segs).map(|s| {
        let q: Vec<V> = pts[s * n..s * n + n + p].to_vec();
        let h = c.rng.range(0.3, 2.0);
        let o = c.rng.range(-3.0, 3.0);
        let k: Vec<f64> = (0..(q.len() + p + 1)).map(|i| o + h * i as f64).collect();
        Spec { p, knots: k, w: vec![1.0; q.len()], pts: q, style: KS::OpenUniform, rational: false }
    }).collect();
    c.describe(format!("unclamped spans {:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&[p as u64, n as u64, segs as u64]);
    let cc = CompoundCurve::new(specs.iter().map(|s| s.c2()).collect());
    chk!(cc.spans().len() == segs, "compound-count", "{} of {segs} spans kept", cc.spans().len());
    path_ok(&cc, 1e-9 * 20.0, "compound-unclamped")?;
    let (d0, d1) = cdom(&cc);
    for _ in 0..10 {
        let t = c.rng.range(d0, d1);
        let i = (0..segs).find(|i| t <= cc.spans()[*i].knots_domain().1).unwrap();
        let p = cc.point_at(t);
        chk!(p.is_some() && dist(&pv(&p.unwrap()), &RC::of(&cc.spans()[i]).at(t)) <= 1e-9 * 20.0, "compound-unclamped-eval", "at {t}");
    }
    c.ev("compounds", 1);
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_curve(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let inv = cv.inverse();
        let mut inv2 = cv.clone();
        inv2.invert();
        chk!(inv == inv2, "inverse-vs-invert", "inverse() and invert() disagree");
        structure(&inv, "invert")?;
        let (f, l) = (rc.k[0], rc.k[rc.k.len() - 1]);
        let (a, b) = rc.dom();
        let (x, y) = inv.knots_domain();
        let h = l - f;
        chk!((x - (f + l - b)).abs() <= 1e-12 * (h + f.abs()) && (y - (f + l - a)).abs() <= 1e-12 * (h + f.abs()), "invert-domain", "domain {:?} became {:?}", (a, b), (x, y));
        let sc = rc.scale();
        for t in rc.params(4) {
            let g = pv(&inv.point_at((f + l - t).clamp(x, y)));
            let w = rc.at(t);
            // parameters are mirrored with rounding: allow the speed there
            let slack = 1e-12 * (h + f.abs() + l.abs()) * norm(&rc.ders(t)[1]);
            chk!(dist(&g, &w) <= 1e-9 * sc + slack, "invert-points", "inverse at {} is {g:?}, curve at {t} is {w:?}", f + l - t);
        }
        let back = inv.inverse();
        chk!(back.control_points() == cv.control_points(), "invert-twice", "control points changed");
        chk!(back.knots().iter().zip(cv.knots().iter()).all(|(p, q)| (p - q).abs() <= 1e-12 * (h + f.abs())), "invert-twice", "knots {:?} became {:?}", cv.knots(), back.knots());
        c.ev("inversions", 1);
        Ok(())
    })
}

fn surf_pts(c: &mut Ctx, r: &RS, n: usize) -> Vec<(f64, f64)> {
    let ((a, b), (e, f)) = r.dom();
    let mut v = vec![(a, e), (b, e), (a, f), (b, f)];
    for _ in 0..n {
        let u = if c.rng.bool(0.2) { *c.rng.pick(&r.ku) } else { c.rng.range(a, b) };
        let w = if c.rng.bool(0.2) { *c.rng.pick(&r.kv) } else { c.rng.range(e, f) };
        v.push((u.clamp(a, b), w.clamp(e, f)));
    }
    v
}

fn c15_surface(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt::default());
    let sf = s.s3();
    let r = RS::of(&sf);
    let (fu, lu) = (r.ku[0], r.ku[r.ku.len() - 1]);
    let (fv, lv) = (r.kv[0], r.kv[r.kv.len() - 1]);
    let sc = r.scale();
    let pts = surf_pts(c, &r, 10);
    let mut cases: Vec<(&str, NurbsSurface3D<f64>, bool, bool)> = vec![
        ("invert", sf.inverse(), true, true),
        ("flip-u", sf.flip(FlipDirection::U), true, false),
        ("flip-v", sf.flip(FlipDirection::V), false, true),
        ("flip-uv", sf.flip(FlipDirection::UV), true, true),
    ];
    for (name, g, mu, mv) in cases.drain(..) {
        for (u, v) in &pts {
            let (x, y) = (if mu { fu + lu - u } else { *u }, if mv { fv + lv - v } else { *v });
            let (du, dv) = g.knots_domain();
            let (x, y) = (x.clamp(du.0, du.1), y.clamp(dv.0, dv.1));
            let p = pv(&g.point_at(x, y));
            let w = r.at(*u, *v);
            let d = r.ders(*u, *v);
            let slack = 1e-12 * ((lu - fu + fu.abs()) * norm(&d.1) + (lv - fv + fv.abs()) * norm(&d.2));
            chk!(dist(&p, &w) <= 1e-9 * sc + slack, format!("{name}-points"), "{name} at {:?} is {p:?}, the surface at {:?} is {w:?}", (x, y), (u, v));
            // normals at interior non-knot points
            let clear = |k: &[f64], t: f64| k.iter().all(|q| (q - t).abs() > 1e-6 * (k[k.len() - 1] - k[0]));
            if clear(&r.ku, *u) && clear(&r.kv, *v) {
                let n0 = cross(&d.1, &d.2);
                let n1 = vv(&g.normal_at(x, y));
                let s = if mu != mv { -1.0 } else { 1.0 };
                chk!(dist(&n1, &mul(&n0, s)) <= 1e-6 * norm(&d.1) * norm(&d.2), format!("{name}-normals"), "{name}: normal {n1:?}, surface normal {n0:?} (sign {s})");
                c.ev("normals", 1);
            }
        }
        c.ev("surface_reversals", 1);
    }
    let tw = sf.inverse().inverse();
    chk!(tw.control_points() == sf.control_points(), "invert-twice-surface", "control points changed");
    Ok(())
}

/// distinct boundaries, none to four
fn some_holes(c: &mut Ctx, cc: &CompoundCurve<f64, Const<3>>) -> Vec<CompoundCurve<f64, Const<3>>> {
    (0..c.rng.int(0, 4))
        .map(|_| {
            if c.rng.bool(0.2) {
                cc.clone()
            } else {
                let closed = c.rng.bool(0.5);
                CompoundCurve::new(chain(c, 2, closed).iter().map(|s| s.c2()).collect())
            }
        })
        .collect()
}
fn c15_compound(c: &mut Ctx) -> R {
    let closed = c.rng.bool(0.5);
    let specs = chain(c, 2, closed);
    c.describe(format!("closed={closed} {:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&[closed as u64, specs.len() as u64, 3]);
    let cc = CompoundCurve::new(specs.iter().map(|s| s.c2()).collect());
    let inv = cc.inverse();
    let sc = specs.iter().flat_map(|s| s.pts.iter().map(|p| norm(p))).fold(0.0, f64::max);
    path_ok(&inv, 1e-6 * sc, "inverse-compound")?;
    let (a, b) = cdom(&cc);
    let (x, y) = cdom(&inv);
    chk!((a - x).abs() < 1e-9 * (1.0 + b) && (b - y).abs() < 1e-9 * (1.0 + b), "inverse-compound-domain", "domain {:?} became {:?}", (a, b), (x, y));
    for _ in 0..12 {
        let t = c.rng.range(a, b);
        let p = cc.point_at(t);
        let q = inv.point_at(a + b - t);
        chk!(p.is_some() && q.is_some(), "inverse-compound-eval", "no point at {t} / {}", a + b - t);
        let (p, q) = (pv(&p.unwrap()), pv(&q.unwrap()));
        let sp = cc.spans().iter().map(|s| norm(&vv(&s.tangent_at(t.clamp(s.knots_domain().0, s.knots_domain().1))))).fold(0.0, f64::max);
        chk!(dist(&p, &q) <= 1e-9 * sc + 1e-11 * (1.0 + b) * sp, "inverse-compound-eval", "inverse at {} is {q:?}, curve at {t} is {p:?}", a + b - t);
    }
    // regions: every boundary is reversed
    let holes = some_holes(c, &cc);
    let rg = Region::new(cc.clone(), holes.clone());
    let ri = rg.inverse();
    let mut rj = rg.clone();
    rj.invert();
    chk!(ri == rj && *ri.exterior() == inv && ri.interiors().len() == holes.len(), "inverse-region", "region inversion does not invert its exterior, or loses boundaries");
    for (k, (h, g)) in holes.iter().zip(ri.interiors()).enumerate() {
        chk!(*g == h.inverse(), "inverse-region", "interior {k} of {} is not reversed with its region", holes.len());
        c.ev("region boundaries reversed", 1);
    }
    c.ev("compound_inversions", 1);
    Ok(())
}

fn c15_trimmed(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt { styles: &CLAMPED_KS, ..Default::default() });
    let sf = s.s3();
    let r = RS::of(&sf);
    let ((a, b), (e, f)) = r.dom();
    let mk = |c: &mut Ctx| {
        let ctr = nalgebra::Point2::new(a + (b - a) * c.rng.range(0.3, 0.7), e + (f - e) * c.rng.range(0.3, 0.7));
        let rx = (b - a) * c.rng.range(0.05, 0.28);
        let ry = (f - e) * c.rng.range(0.05, 0.28);
        NurbsCurve2D::try_ellipse(&ctr, &nalgebra::Vector2::new(rx, 0.0), &nalgebra::Vector2::new(0.0, ry)).unwrap()
    };
    let ext = if c.rng.bool(0.5) { Some(mk(c)) } else { None };
    let ni = c.rng.int(0, 2);
    let int: Vec<_> = (0..ni).map(|_| mk(c)).collect();
    let t = TrimmedSurface::new(sf.clone(), ext.clone(), int.clone());
    let ti = t.inverse();
    chk!(ti.exterior().is_some() == ext.is_some() && ti.interiors().len() == int.len(), "invert-trimmed-count", "trims lost");
    let sc = r.scale();
    // every trim must trace the same set of surface points
    let on = |sf: &NurbsSurface3D<f64>, cv: &NurbsCurve2D<f64>, k: usize| -> Vec<V> {
        let (x, y) = cv.knots_domain();
        (0..=k).map(|i| { let p = cv.point_at(x + (y - x) * i as f64 / k as f64); pv(&sf.point_at(p.x, p.y)) }).collect()
    };
    let pairs: Vec<(&NurbsCurve2D<f64>, &NurbsCurve2D<f64>)> = ext.iter().zip(ti.exterior()).chain(int.iter().zip(ti.interiors().iter())).collect();
    for (o, n) in pairs {
        let (p, q) = (on(&sf, o, 24), on(ti.surface(), n, 24));
        let same = p.iter().zip(&q).all(|(x, y)| dist(x, y) <= 1e-6 * sc);
        let rev = p.iter().rev().zip(&q).all(|(x, y)| dist(x, y) <= 1e-6 * sc);
        chk!(same || rev, "invert-trimmed-region", "after inversion a trim runs through {:?}.. on the surface, before {:?}..", &q[..2], &p[..2]);
        c.ev("trims_inverted", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn affine(c: &mut Ctx, n: usize) -> (Vec<V>, V) {
    loop {
        let kind = c.rng.int(0, 4);
        let mut m: Vec<V> = (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect();
        match kind {
            0 => {}
            1 => for i in 0..n { m[i][i] = c.rng.range(-3.0, 3.0); },
            2 => { let (x, y, z) = frame3(&mut c.rng); let f = [x, y, z]; if n == 3 { for i in 0..3 { for j in 0..3 { m[i][j] = f[j][i]; } } } else { let a = c.rng.range(0.0, 6.0); m = vec![vec![a.cos(), -a.sin()], vec![a.sin(), a.cos()]]; } },
            _ => for i in 0..n { for j in 0..n { m[i][j] = c.rng.range(-2.0, 2.0); } },
        }
        let det = if n == 2 { m[0][0] * m[1][1] - m[0][1] * m[1][0] } else { dot(&m[0], &cross(&m[1], &m[2])) };
        if det.abs() < 0.05 { continue; }
        let t: V = (0..n).map(|_| c.rng.range(-20.0, 20.0)).collect();
        return (m, t);
    }
}
fn apply(m: &(Vec<V>, V), p: &[f64]) -> V {
    (0..p.len()).map(|i| dot(&m.0[i], p) + m.1[i]).collect()
}
fn m3(m: &(Vec<V>, V)) -> Matrix3<f64> {
    Matrix3::from_fn(|i, j| if i < 2 && j < 2 { m.0[i][j] } else if i < 2 { m.1[i] } else { (j == 2) as u8 as f64 })
}
fn m4(m: &(Vec<V>, V)) -> Matrix4<f64> {
    Matrix4::from_fn(|i, j| if i < 3 && j < 3 { m.0[i][j] } else if i < 3 { m.1[i] } else { (j == 3) as u8 as f64 })
}

fn c16_curve(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, ..Default::default() });
    let m = affine(c, dim);
    let d = format!("{} | affine {m:?}", s.desc());
    c.describe(d);
    macro_rules! go {
        ($cv:expr, $mat:expr) => {{
            let cv = $cv;
            let mat = $mat;
            let t = cv.transformed(&mat);
            let mut t2 = cv.clone();
            t2.transform(&mat);
            chk!(t == t2, "transform-vs-transformed", "in-place and copying transform disagree");
            structure(&t, "transform")?;
            chk!(t.knots() == cv.knots() && t.degree() == cv.degree(), "transform-knots", "knots or degree changed");
            let (w0, w1) = (cv.weights(), t.weights());
            chk!(w0.iter().zip(&w1).all(|(a, b)| (a - b).abs() <= 1e-12 * a), "transform-weights", "weights {w0:?} became {w1:?}");
            let rc = RC::of(&cv);
            let sc = RC::of(&t).scale() + rc.scale() * 3.0;
            for u in rc.params(3) {
                let g = pv(&t.point_at(u));
                let w = apply(&m, &rc.at(u));
                chk!(dist(&g, &w) <= 1e-9 * sc * (1.0 + rc.wratio().ln()), "transform-points", "transformed curve at {u} is {g:?}, transformed point {w:?}");
                c.ev("points", 1);
            }
            Ok(())
        }};
    }
    if dim == 2 { go!(s.c2(), m3(&m)) } else { go!(s.c3(), m4(&m)) }
}
fn c16_surface(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt::default());
    let m = affine(c, 3);
    let sf = s.s3();
    let r = RS::of(&sf);
    let mat = m4(&m);
    let t = sf.transformed(&mat);
    let mut t2 = sf.clone();
    t2.transform(&mat);
    chk!(t.control_points() == t2.control_points(), "transform-vs-transformed", "in-place and copying transform disagree");
    chk!(t.u_knots() == sf.u_knots() && t.v_knots() == sf.v_knots() && t.u_degree() == sf.u_degree() && t.v_degree() == sf.v_degree(), "transform-knots", "knots or degree changed");
    let sc = RS::of(&t).scale() + 3.0 * r.scale();
    let pts = surf_pts(c, &r, 10);
    for (u, v) in &pts {
        let g = pv(&t.point_at(*u, *v));
        let w = apply(&m, &r.at(*u, *v));
        chk!(dist(&g, &w) <= 1e-8 * sc, "transform-surface", "at {:?}: {g:?} want {w:?}", (u, v));
        c.ev("points", 1);
    }
    let ((a, b), (e, f)) = r.dom();
    let tr = NurbsCurve2D::try_ellipse(&nalgebra::Point2::new((a + b) / 2.0, (e + f) / 2.0), &nalgebra::Vector2::new((b - a) / 3.0, 0.0), &nalgebra::Vector2::new(0.0, (f - e) / 4.0)).unwrap();
    let ext = if c.rng.bool(0.5) { Some(tr.clone()) } else { None };
    let ints: Vec<_> = (0..c.rng.int(0, 3)).map(|_| s2(c)).collect();
    let ts = TrimmedSurface::new(sf.clone(), ext.clone(), ints.clone());
    let tt = ts.transformed(&mat);
    chk!(tt.exterior() == ext.as_ref() && tt.interiors() == &ints[..], "transform-trims", "trims changed by a transform");
    chk!(tt.surface().control_points() == t.control_points(), "transform-trimmed", "trimmed surface transformed differently from its surface");
    Ok(())
}
fn c16_compound(c: &mut Ctx) -> R {
    let specs = chain(c, 2, true);
    let m = affine(c, 2);
    c.describe(format!("affine {m:?} of {:?}", specs.iter().map(|s| s.desc()).collect::<Vec<_>>()));
    c.shape(&[specs.len() as u64, 9]);
    let cc = CompoundCurve::new(specs.iter().map(|s| s.c2()).collect());
    let mat = m3(&m);
    let t = cc.transformed(&mat);
    let sc = cc.spans().iter().map(|s| RC::of(s).scale()).fold(0.0, f64::max) * 4.0 + norm(&m.1);
    let (a, b) = cdom(&cc);
    for _ in 0..10 {
        let u = c.rng.range(a, b);
        let (p, q) = (cc.point_at(u), t.point_at(u));
        chk!(p.is_some() && q.is_some(), "transform-compound-domain", "no point at {u}");
        let w = apply(&m, &pv(&p.unwrap()));
        chk!(dist(&pv(&q.unwrap()), &w) <= 1e-8 * sc, "transform-compound", "at {u}");
        c.ev("points", 1);
    }
    let holes = some_holes(c, &cc);
    let rg = Region::new(cc.clone(), holes.clone()).transformed(&mat);
    chk!(*rg.exterior() == t && rg.interiors().len() == holes.len() && rg.interiors().iter().zip(&holes).all(|(i, h)| *i == h.transformed(&mat)), "transform-region", "region boundaries transformed differently");
    Ok(())
}

// ---------------------------------------------------------------- C17

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 4e-16 * a.abs().max(b.abs())
}
fn same_curve<D>(a: &NurbsCurve<f64, D>, b: &NurbsCurve<f64, D>, key: &str, exact: bool) -> R
where
    D: DimName,
    DefaultAllocator: Allocator<D>,
{
    if exact {
        chk!(a == b, key, "{key}: read back curve differs");
    }
    let (x, y) = (RC::of(a), RC::of(b));
    let ok = x.p == y.p && x.k.len() == y.k.len() && x.c.len() == y.c.len() && x.k.iter().zip(&y.k).all(|(p, q)| close(*p, *q)) && x.c.iter().zip(&y.c).all(|(p, q)| p.iter().zip(q).all(|(p, q)| close(*p, *q)));
    chk!(ok, key, "{key}: {x:?} read back as {y:?}");
    Ok(())
}
/// a document with one of its fields missing, of the wrong type or given twice
fn damaged(c: &mut Ctx, v: &serde_json::Value, optional: &[&str]) -> Option<(String, String)> {
    let serde_json::Value::Object(o) = v else { return None };
    let keys: Vec<&String> = o.keys().collect();
    let k = (*c.rng.pick(&keys)).clone();
    let mut o = o.clone();
    let how = c.rng.int(if optional.contains(&k.as_str()) { 1 } else { 0 }, 2);
    let val = o[&k].clone();
    match how {
        0 => {
            o.remove(&k);
        }
        1 => {
            o.insert(k.clone(), serde_json::Value::String("damaged".into()));
        }
        _ => {}
    }
    let text = serde_json::Value::Object(o).to_string();
    let text = if how == 2 { format!("{{\"{k}\":{val},{}", &text[1..]) } else { text };
    Some((format!("{} field {k}", ["missing", "damaged", "repeated"][how]), text))
}

fn c17_serde(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, ..Default::default() });
    macro_rules! via {
        ($v:expr, $T:ty) => {{
            let js = must!(serde_json::to_string(&$v), "serialise");
            let a: $T = must!(serde_json::from_str(&js), "deserialise");
            let jv = must!(serde_json::to_value(&$v), "serialise");
            let b: $T = must!(serde_json::from_value(jv), "deserialise");
            (a, b)
        }};
    }
    macro_rules! refused {
        ($v:expr, $T:ty, $opt:expr) => {{
            let jv = must!(serde_json::to_value(&$v), "serialise");
            if let Some((what, text)) = damaged(c, &jv, $opt) {
                chk!(serde_json::from_str::<$T>(&text).is_err(), "serde-damaged", "a {} with a {what} is read without an error: {text:.300}", stringify!($T));
                c.ev("damaged documents refused", 1);
            }
        }};
    }
    if dim == 2 {
        let cv = s.c2();
        refused!(cv, NurbsCurve2D<f64>, &[]);
        let (a, b) = via!(cv, NurbsCurve2D<f64>);
        same_curve(&cv, &a, "serde-curve", false)?;
        same_curve(&cv, &b, "serde-curve", true)?;
        let cc: CompoundCurve<f64, Const<3>> = CompoundCurve::new(chain(c, 2, false).iter().map(|s| s.c2()).collect());
        refused!(cc, CompoundCurve<f64, Const<3>>, &[]);
        let (a, b) = via!(cc, CompoundCurve<f64, Const<3>>);
        chk!(b == cc && a.spans().len() == cc.spans().len(), "serde-compound", "compound curve read back differs");
        for (x, y) in a.spans().iter().zip(cc.spans()) { same_curve(y, x, "serde-compound", false)?; }
        let mut holes = some_holes(c, &cc);
        holes.push(cv.clone().into());
        let rg = Region::new(cc.clone(), holes.clone());
        refused!(rg, Region<f64>, &[]);
        let (a, b) = via!(rg, Region<f64>);
        chk!(b == rg && a.interiors().len() == holes.len(), "serde-region", "region read back differs");
        for (x, y) in a.interiors().iter().zip(rg.interiors()) { for (x, y) in x.spans().iter().zip(y.spans()) { same_curve(y, x, "serde-region", false)?; } }
    } else {
        let cv = s.c3();
        let (a, b) = via!(cv, NurbsCurve3D<f64>);
        same_curve(&cv, &a, "serde-curve", false)?;
        same_curve(&cv, &b, "serde-curve", true)?;
        let sf = sspec(c, &SOpt::default()).s3();
        let eq = |x: &NurbsSurface3D<f64>, y: &NurbsSurface3D<f64>| {
            let (p, q) = (RS::of(x), RS::of(y));
            p.p == q.p && p.q == q.q && p.ku.len() == q.ku.len() && p.kv.len() == q.kv.len() && p.c.len() == q.c.len()
                && p.ku.iter().zip(&q.ku).all(|(a, b)| close(*a, *b)) && p.kv.iter().zip(&q.kv).all(|(a, b)| close(*a, *b))
                && p.c.iter().zip(&q.c).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.iter().zip(b).all(|(a, b)| close(*a, *b))))
        };
        refused!(sf, NurbsSurface3D<f64>, &[]);
        let (a, b) = via!(sf, NurbsSurface3D<f64>);
        chk!(eq(&a, &sf) && eq(&b, &sf), "serde-surface", "surface read back differs");
        let e = if c.rng.bool(0.5) { Some(s2(c)) } else { None };
        let ni = c.rng.int(0, 3);
        let i: Vec<_> = (0..ni).map(|_| s2(c)).collect();
        let t = TrimmedSurface::new(sf.clone(), e.clone(), i.clone());
        refused!(t, TrimmedSurface<f64>, &["exterior"]);
        let (a, b) = via!(t, TrimmedSurface<f64>);
        for (n, x) in [(0, &a), (1, &b)] {
            chk!(eq(x.surface(), &sf) && x.exterior().is_some() == e.is_some() && x.interiors().len() == i.len(), "serde-trimmed", "trimmed surface read back differs: exterior {:?} interiors {}", x.exterior().is_some(), x.interiors().len());
            if let Some(e) = &e { same_curve(e, x.exterior().unwrap(), "serde-trimmed", n == 1)?; }
            for (p, q) in i.iter().zip(x.interiors()) { same_curve(p, q, "serde-trimmed", n == 1)?; }
        }
        // damaged data is reported, whatever part it hits
        let mut jv = must!(serde_json::to_value(&t), "serialise");
        let part = match c.rng.int(0, 2) {
            0 => Some(&mut jv["surface"]),
            1 if e.is_some() => Some(&mut jv["exterior"]),
            2 if !i.is_empty() => Some(&mut jv["interiors"][0]),
            _ => None,
        };
        if let Some(serde_json::Value::Object(o)) = part {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = c.rng.pick(&keys).clone();
            if c.rng.bool(0.5) {
                o.remove(&k);
            } else {
                o.insert(k.clone(), serde_json::Value::String("damaged".into()));
            }
            let r = serde_json::from_value::<TrimmedSurface<f64>>(jv);
            chk!(r.is_err(), "serde-damaged", "a trimmed surface with a damaged field {k} is read without an error");
            c.ev("damaged objects refused", 1);
        }
    }
    c.ev("round_trips", 4);
    Ok(())
}
fn s2(c: &mut Ctx) -> NurbsCurve2D<f64> {
    spec(&mut c.rng, &SpecOpt::default()).c2()
}
fn c17_conv(c: &mut Ctx) -> R {
    let s = spec_in(c, &SpecOpt { dim: 2, ..Default::default() });
    let cv = s.c2();
    let rc = RC::of(&cv);
    let sc = rc.scale();
    let up = cv.elevate_dimension();
    structure(&up, "elevate_dimension")?;
    chk!(up.degree() == cv.degree() && up.knots() == cv.knots() && up.weights() == cv.weights(), "elevate-dimension", "degree, knots or weights changed");
    for u in rc.params(3) {
        let (p, q) = (rc.at(u), pv(&up.point_at(u)));
        chk!(dist(&p, &q[..2]) <= 1e-9 * sc && q[2].abs() <= 1e-12 * sc, "elevate-dimension", "at {u}: {q:?}, the plane curve is at {p:?}");
        c.ev("points", 1);
    }
    let dh = cv.dehomogenize();
    let e = rc.euclid();
    chk!(dh.degree() == cv.degree() && dh.knots() == cv.knots() && dh.control_points().len() == e.len(), "dehomogenize", "structure changed");
    for (p, q) in dh.control_points().iter().zip(&e) {
        chk!(dist(&pv(p), q) <= 1e-12 * sc, "dehomogenize", "control point {p:?}, Euclidean {q:?}");
    }
    // f32 -> f64
    let c32 = must!(NurbsCurve2D::<f32>::try_new(s.p, s.hom().iter().map(|h| nalgebra::Point3::new(h[0] as f32, h[1] as f32, h[2] as f32)).collect(), s.knots.iter().map(|k| *k as f32).collect()), "f32");
    let wide: NurbsCurve2D<f64> = c32.cast();
    let w = RC::of(&wide);
    chk!(wide.knots().iter().zip(c32.knots().iter()).all(|(a, b)| *a == *b as f64) && wide.control_points().iter().zip(c32.control_points()).all(|(a, b)| a.iter().zip(b.iter()).all(|(x, y)| *x == *y as f64)), "cast", "cast changed the numbers");
    let step = w.breaks().windows(2).map(|x| x[1] - x[0]).fold(f64::MAX, f64::min);
    for u in w.params(2) {
        let u = u as f32;
        let a = pv(&c32.point_at(u));
        let b = w.at(u as f64);
        let tol = 2e-4 * sc * w.wratio().max(1.0).ln().max(1.0) * (1.0 + w.k[w.k.len() - 1].abs() / step * 1e-2);
        chk!(dist(&a, &b) <= tol, "cast-eval", "f32 curve at {u}: {a:?}, its f64 cast {b:?}");
    }
    let sf = sspec(c, &SOpt::default());
    let s32 = NurbsSurface3D::<f32>::new(sf.p, sf.q, sf.ku.iter().map(|x| *x as f32).collect(), sf.kv.iter().map(|x| *x as f32).collect(),
        sf.pts.iter().zip(&sf.w).map(|(r, w)| r.iter().zip(w).map(|(p, w)| nalgebra::Point4::new((p[0] * w) as f32, (p[1] * w) as f32, (p[2] * w) as f32, *w as f32)).collect()).collect());
    let w: NurbsSurface3D<f64> = s32.cast();
    let (x, y) = (RS::of(&s32), RS::of(&w));
    chk!(x.ku == y.ku && x.kv == y.kv && x.c == y.c && x.p == y.p && x.q == y.q, "cast-surface", "cast changed the numbers");
    let kv: KnotVector<f32> = KnotVector::new(s.knots.iter().map(|k| *k as f32).collect());
    let kw: KnotVector<f64> = kv.cast();
    chk!(kw.iter().zip(kv.iter()).all(|(a, b)| *a == *b as f64), "cast-knots", "cast changed the knots");
    c.ev("conversions", 5);
    Ok(())
}

fn sof(s: &NurbsSurface3D<f64>) -> String {
    format!("{s:?}")
}
/// the parts an object shows, hands out for change & is taken apart into
fn c17_views(c: &mut Ctx) -> R {
    let s = spec_in(c, &SpecOpt { dim: 2, ..Default::default() });
    let mut cv = s.c2();
    let before = cv.clone();
    chk!(cv.control_points_iter().eq(before.control_points().iter()), "views-curve", "the iterator over the control points gives others");
    for p in cv.control_points_iter_mut() {
        p.coords *= 2.0;
    }
    chk!(cv.control_points().iter().zip(before.control_points()).all(|(a, b)| a.coords == b.coords * 2.0) && cv.control_points().len() == before.control_points().len() && cv.knots() == before.knots() && cv.degree() == before.degree(), "views-curve", "changing the control points through the iterator");
    let cv = before;
    let one: CompoundCurve<f64, Const<3>> = cv.clone().into();
    let shift = cv.knots().first() - one.spans()[0].knots().first();
    let size = cv.knots().iter().fold(0.0f64, |m, k| m.max(k.abs()));
    chk!(
        one.spans().len() == 1 && one.spans()[0].degree() == cv.degree() && one.spans()[0].control_points() == cv.control_points() && one.spans()[0].knots().iter().zip(cv.knots().iter()).all(|(a, b)| (a + shift - b).abs() <= 1e-14 * size * 8.0),
        "views-compound",
        "the compound curve of one curve is another curve"
    );
    let n = c.rng.int(1, 4) as usize;
    let mut cc: CompoundCurve<f64, Const<3>> = CompoundCurve::new(chain(c, 2, false).iter().map(|s| s.c2()).collect());
    let spans = cc.spans().to_vec();
    chk!(cc.spans_mut().to_vec() == spans, "views-compound", "spans_mut gives other spans");
    let holes: Vec<CompoundCurve<f64, Const<3>>> = (0..n).map(|_| spec(&mut c.rng, &SpecOpt::default()).c2().into()).collect();
    let mut rg = Region::new(cc.clone(), holes.clone());
    chk!(*rg.exterior() == cc && rg.interiors() == holes && *rg.interiors_mut() == holes, "views-region", "exterior or interiors are others");
    chk!(rg.clone().into_tuple() == (cc.clone(), holes.clone()) && rg.clone().into_exterior() == cc && rg.clone().into_interiors() == holes, "views-region", "the region is taken apart into other parts");
    let (a, b): (Region<f64>, Region<f64>) = (cv.clone().into(), cc.clone().into());
    chk!(*a.exterior() == one && a.interiors().is_empty() && *b.exterior() == cc && b.interiors().is_empty(), "views-region", "the region of a boundary without holes has other parts");
    let sf = sspec(c, &SOpt::default()).s3();
    let ex = if c.rng.bool(0.7) { Some(cv.clone()) } else { None };
    let ins: Vec<NurbsCurve2D<f64>> = (0..n).map(|_| s2(c)).collect();
    let mut t = TrimmedSurface::new(sf.clone(), ex.clone(), ins.clone());
    chk!(sof(t.surface()) == sof(&sf) && t.exterior() == ex.as_ref() && t.interiors() == ins, "views-trimmed", "surface or trims are others");
    chk!(sof(t.surface_mut()) == sof(&sf) && t.exterior_mut().map(|x| x.clone()) == ex && t.interiors_mut() == ins, "views-trimmed", "surface or trims for change are others");
    let plain: TrimmedSurface<f64> = sf.clone().into();
    chk!(sof(plain.surface()) == sof(&sf) && plain.exterior().is_none() && plain.interiors().is_empty(), "views-trimmed", "a surface without trims has some");
    // options say what they were told
    let (d, st, co) = (c.rng.range(1e-9, 1.0), c.rng.range(1e-9, 1.0), c.rng.range(1e-9, 1.0));
    let (k, m) = (c.rng.int(2, 900) as usize, c.rng.int(1, 900) as u64);
    let e = CurveIntersectionSolverOptions::<f64>::default();
    let mut o = e.clone();
    let mut want = (e.minimum_distance, e.knot_domain_division, e.step_size_tolerance, e.cost_tolerance, e.max_iters);
    for _ in 0..c.rng.int(1, 5) {
        o = match c.rng.int(0, 4) {
            0 => { want.0 = d; o.with_minimum_distance(d) }
            1 => { want.1 = k; o.with_knot_domain_division(k) }
            2 => { want.2 = st; o.with_step_size_tolerance(st) }
            3 => { want.3 = co; o.with_cost_tolerance(co) }
            _ => { want.4 = m; o.with_max_iters(m) }
        };
    }
    chk!((o.minimum_distance, o.knot_domain_division, o.step_size_tolerance, o.cost_tolerance, o.max_iters) == want, "views-options", "solver options {o:?} instead of {want:?}");
    let list = |c: &mut Ctx| if c.rng.bool(0.6) { Some((0..c.rng.int(1, 4)).map(|_| c.rng.range(0.0, 1.0)).collect::<Vec<f64>>()) } else { None };
    let (x, y) = (list(c), (0..n).map(|_| list(c)).collect::<Vec<_>>());
    let mut g = TrimmedSurfaceConstraints::default().with_interiors(y[..n - 1].to_vec()).with_exterior(x.clone());
    g.push_interior(y[n - 1].clone());
    let h = TrimmedSurfaceConstraints::new(x.clone(), y.clone());
    chk!(g.exterior() == x.as_ref() && *g.interiors() == y && h.exterior() == x.as_ref() && *h.interiors() == y, "views-constraints", "constraints of a trimmed surface are others");
    let (p, q, r, w) = (list(c), list(c), list(c), list(c));
    let mut bc = BoundaryConstraints::new();
    if let Some(v) = &p { bc = bc.with_u_parameters_at_v_min(v.clone()); }
    if let Some(v) = &q { bc = bc.with_v_parameters_at_u_min(v.clone()); }
    if let Some(v) = &r { bc = bc.with_u_parameters_at_v_max(v.clone()); }
    if let Some(v) = &w { bc = bc.with_v_parameters_at_u_max(v.clone()); }
    chk!(bc.u_parameters_at_v_min() == p.as_ref() && bc.v_parameters_at_u_min() == q.as_ref() && bc.u_parameters_at_v_max() == r.as_ref() && bc.v_parameters_at_u_max() == w.as_ref(), "views-constraints", "boundary constraints are others");
    c.shape(&[n as u64, cc.spans().len() as u64, p.is_some() as u64 + 2 * q.is_some() as u64 + 4 * r.is_some() as u64 + 8 * w.is_some() as u64]);
    c.ev("objects taken apart", 7);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C15", rule: "random curves/surfaces of every knot style (rational, unclamped), chains of 1-6 spans, trimmed surfaces; distinct = structure signatures",
            loads: vec![
                Workload { name: "curve", f: c15_curve, quick: 18000, thorough: 90000 },
                Workload { name: "surface", f: c15_surface, quick: 9000, thorough: 45000 },
                Workload { name: "compound", f: c15_compound, quick: 9000, thorough: 45000 },
                Workload { name: "trimmed", f: c15_trimmed, quick: 4800, thorough: 24000 },
            ] },
        Prop { id: "C16", rule: "random objects x random invertible affine matrices (scale, rotation, shear, reflection, translation); distinct = structure signatures",
            loads: vec![
                Workload { name: "curve", f: c16_curve, quick: 18000, thorough: 90000 },
                Workload { name: "surface", f: c16_surface, quick: 9000, thorough: 45000 },
                Workload { name: "compound", f: c16_compound, quick: 6000, thorough: 30000 },
            ] },
        Prop { id: "C17", rule: "random objects of every serialisable type, text and value JSON round trips; dimension elevation, dehomogenisation, f32->f64 casts; distinct = structure signatures",
            loads: vec![
                Workload { name: "serde", f: c17_serde, quick: 12000, thorough: 60000 },
                Workload { name: "views", f: c17_views, quick: 3000, thorough: 15000 },
                Workload { name: "conversions", f: c17_conv, quick: 12000, thorough: 60000 },
            ] },
        Prop { id: "C25", rule: "chains of 1-6 connected spans (Bezier, repeated knots, rational, unclamped), open and closed, given in order, shuffled and/or with random orientation; trim ranges at joints, knots and interior, both directions; distinct = (dimension, closed, order, orientation)",
            loads: vec![
                Workload { name: "new", f: c25_new, quick: 7500, thorough: 50000 },
                Workload { name: "trim", f: c25_trim, quick: 9000, thorough: 60000 },
                Workload { name: "closest", f: c25_closest, quick: 900, thorough: 5000 },
                Workload { name: "unclamped", f: c25_unclamped, quick: 1500, thorough: 10000 },
            ] },
    ]
}
