//! C33 (region triangulation) and C34 (curve tessellation).
use crate::c_bool::annular;
use crate::c_comp::chain;
use crate::c_region::*;
use crate::c_trim::{covers, Trim};
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};

fn c33(c: &mut Ctx) -> R {
    let size = *c.rng.pick(&[0.02, 0.5, 1.0, 4.0, 30.0, 1000.0]);
    let o: V = if c.rng.bool(0.3) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-3.0, 3.0) * size).collect() };
    let (rg, ls) = if c.rng.bool(0.7) {
        let most = *c.rng.pick(&[2, 2, 5]);
        annular(c, size, &o, most)?
    } else {
        let l = looped(c, size, &o)?;
        (Region::new(l.cc.clone(), vec![]), vec![l])
    };
    let tol = if c.rng.bool(0.2) { None } else { Some(size * 10f64.powf(c.rng.range(-5.0, -2.0))) };
    let t = tol.unwrap_or(1e-3);
    // the discretised boundaries must not touch one another
    for (i, a) in ls.iter().enumerate() {
        for b in &ls[i + 1..] {
            let gap = a.pts.iter().map(|p| polyd(p, &b.pts)).fold(f64::MAX, f64::min);
            if gap < 8.0 * t {
                return Err(Stop::Skip("holes closer than the tolerance"));
            }
        }
    }
    if ls.iter().any(|l| t > 0.03 * l.size) {
        return Err(Stop::Skip("tolerance larger than the holes"));
    }
    let desc: Vec<String> = ls.iter().map(|l| format!("kind {} spans {:?}", l.kind, l.rcs.iter().map(|r| (r.p, &r.k, &r.c)).collect::<Vec<_>>())).collect();
    c.describe(format!("tolerance {tol:?} boundaries {desc:?}"));
    let m = must!(rg.tessellate(tol), "tessellate");
    let trims: Vec<Trim> = ls.iter().map(|l| Trim::of(l, &o, size)).collect();
    let uv: Vec<(f64, f64)> = m.vertices().iter().map(|p| ((p.x - o[0]) / size, (p.y - o[1]) / size)).collect();
    for f in m.faces() {
        chk!(f.iter().all(|i| *i < uv.len()), "mesh-index", "face {f:?} of {} vertices", uv.len());
    }
    // every vertex lies on a boundary
    for p in &uv {
        let d = trims.iter().map(|t| polyd(&[p.0, p.1], &t.pts) - t.sag).fold(f64::MAX, f64::min);
        chk!(d <= 1e-9, "mesh-vertex", "vertex {p:?} is {d} off every boundary (relative to the size {size})");
    }
    c.ev("vertices", uv.len() as u64);
    // polygon edges exactly, curved edges within the tolerance
    let straight: Vec<bool> = ls.iter().map(|l| l.rcs.iter().all(|r| r.p == 1)).collect();
    let dev = |x: &Trim| {
        let i = trims.iter().position(|y| std::ptr::eq(x, y)).unwrap_or(0);
        if straight[i] { 1e-9 } else { 4.0 * t / size + x.sag + 1e-9 }
    };
    covers(c, &uv, m.faces(), Some(&trims[0]), &trims[1..], &dev)?;
    let sum: f64 = m.faces().iter().map(|f| (crate::c_mesh::cross2(uv[f[0]], uv[f[1]], uv[f[2]]) / 2.0).abs()).sum();
    chk!((m.area() / size / size - sum).abs() <= 1e-9, "mesh-area", "area() is {} but the faces sum up to {}", m.area(), sum * size * size);
    c.shape(&[ls.len() as u64, m.faces().len() as u64]);
    Ok(())
}

/// smallest parameter >= `from` at which the curve passes through `q`
fn pass(rc: &RC, samples: &[(f64, V)], from: f64, q: &[f64], tol: f64) -> Option<f64> {
    let start = samples.partition_point(|s| s.0 <= from).saturating_sub(1);
    if dist(&rc.at(from), q) <= tol {
        return Some(from);
    }
    let len = |i: usize| if i + 1 < samples.len() { dist(&samples[i].1, &samples[i + 1].1) } else { 0.0 };
    for i in start..samples.len() - 1 {
        let w = &samples[i..i + 2];
        let (a, b) = (w[0].0.max(from), w[1].0);
        // the curve moves at most about as far as in the neighbouring steps
        let step = len(i).max(len(i.saturating_sub(1))).max(len(i + 1));
        if dist(&w[0].1, q).min(dist(&w[1].1, q)) > 1.5 * step + tol {
            continue;
        }
        let f = |x: f64| dist(&rc.at(x), q);
        // (the curve may turn back in between)
        for k in 0..2 {
            let (a, b) = (a + (b - a) * k as f64 / 2.0, a + (b - a) * (k + 1) as f64 / 2.0);
            let (mut lo, mut hi) = (a, b);
            for _ in 0..45 {
                let (x, y) = (lo + (hi - lo) * 0.382, lo + (hi - lo) * 0.618);
                if f(x) < f(y) { hi = y } else { lo = x }
            }
            if let Some(t) = [a, 0.5 * (lo + hi), b].into_iter().find(|t| f(*t) <= tol) {
                return Some(t);
            }
        }
    }
    None
}

fn follows(c: &mut Ctx, rc: &RC, pts: &[V], tol: f64, exact: bool) -> R {
    let sc = rc.scale().max(1e-300);
    let (a, b) = rc.dom();
    let eps = 1e-8 * sc * rc.wratio().max(1.0);
    chk!(pts.len() >= 2, "tess-count", "{} points", pts.len());
    chk!(pts.iter().all(|p| finite(p)), "tess-nan", "{pts:?}");
    chk!(dist(&pts[0], &rc.at(a)) <= eps && dist(&pts[pts.len() - 1], &rc.at(b)) <= eps, "tess-ends", "runs from {:?} to {:?} instead of {:?} to {:?}", pts[0], pts[pts.len() - 1], rc.at(a), rc.at(b));
    // parameters of the points, in order
    let per = (4000 / (rc.breaks().len() - 1)).clamp(150, 1200);
    let mut samples: Vec<(f64, V)> = vec![];
    for w in rc.breaks().windows(2) {
        samples.extend((0..per).map(|i| w[0] + (w[1] - w[0]) * i as f64 / per as f64).map(|t| (t, rc.at(t))));
    }
    samples.push((b, rc.at(b)));
    let mut ts = vec![a];
    for (i, q) in pts.iter().enumerate().skip(1) {
        if i + 1 == pts.len() {
            ts.push(b);
            break;
        }
        match pass(rc, &samples, ts[i - 1], q, eps) {
            Some(t) => ts.push(t),
            None => return Err(Stop::V("tess-order".into(), format!("point {i} of {} {q:?} is not on the curve beyond the parameter {} of the point before it", pts.len(), ts[i - 1]))),
        }
    }
    // the curve between consecutive points stays close to the chord
    for i in 0..ts.len() - 1 {
        let m = if ts.len() > 400 { 5 } else { 16 };
        let mut cut: Vec<f64> = (1..m).map(|k| ts[i] + (ts[i + 1] - ts[i]) * k as f64 / m as f64).collect();
        cut.extend(rc.breaks().iter().copied().filter(|k| ts[i] < *k && *k < ts[i + 1]));
        for t in cut {
            let d = segd(&rc.at(t), &pts[i], &pts[i + 1]);
            c.err(if exact { "straight off/scale" } else { "departure/tolerance" }, if exact { d / sc } else { d / tol });
            chk!(d <= if exact { eps } else { 4.0 * tol + eps }, "tess-departs", "the curve at {t} is {d} off the chord {:?}-{:?} between {} and {} (tolerance {tol})", pts[i], pts[i + 1], ts[i], ts[i + 1]);
        }
    }
    c.ev("points placed in order", pts.len() as u64);
    c.shape(&[pts.len() as u64, rc.p as u64, rc.c.len() as u64]);
    Ok(())
}

fn one<D: DimName + DimNameSub<U1>>(c: &mut Ctx, cv: &NurbsCurve<f64, D>) -> R
where
    DefaultAllocator: Allocator<D>,
    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC::of(cv);
    let sc = rc.scale();
    // None means an absolute tolerance of 1e-3
    let tol = if sc > 0.05 && sc < 50.0 && c.rng.bool(0.2) { None } else { Some(sc * 10f64.powf(c.rng.range(-4.5, -1.0))) };
    c.describe(format!("{} tolerance {tol:?}", c.desc));
    let t = tol.unwrap_or(1e-3);
    let reps = if c.thorough { 3 } else { 2 };
    for k in 0..reps {
        // other outcomes of the random choices
        crate::rng::set_entropy(crate::rng::mix(&[c.seed, 77, k]));
        let pts: Vec<V> = cv.tessellate(tol).iter().map(pv).collect();
        follows(c, &rc, &pts, t, rc.p == 1)?;
    }
    Ok(())
}

fn c34_curves(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let styles = [KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::OpenUniform, KS::OpenRandom, KS::ClampedRepeat];
    let w = *c.rng.pick(&[W::One, W::Mild]);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, extra: 8, styles: &styles, w: Some(w), ..Default::default() });
    if dim == 2 { one(c, &s.c2()) } else { one(c, &s.c3()) }
}

/// shapes that a few samples mistake for a straight line
fn c34_deceptive(c: &mut Ctx) -> R {
    let kind = c.rng.int(0, 5);
    let sc = *c.rng.pick(&[0.01, 1.0, 10.0, 500.0]);
    let p = c.rng.int(2, 4);
    let th = c.rng.range(0.0, 6.3);
    let rot = |x: f64, y: f64| nalgebra::Point2::new((x * th.cos() - y * th.sin()) * sc, (x * th.sin() + y * th.cos()) * sc);
    let n = c.rng.int(p + 3, 14);
    let h = c.rng.range(0.05, 0.6);
    let pts: Vec<_> = match kind {
        0 => {
            // a bump somewhere along a line
            let at = c.rng.int(1, n - 2);
            (0..n).map(|i| rot(i as f64, if i == at { h } else { 0.0 })).collect()
        }
        1 => (0..n).map(|i| rot(i as f64, if i % 2 == 1 { h } else { -h } * ((i > 0 && i < n - 1) as u8 as f64))).collect(),
        2 => {
            // point symmetric about the middle
            let v: Vec<f64> = (0..n / 2).map(|i| if i == 0 { 0.0 } else { c.rng.range(-h, h) }).collect();
            let mut r: Vec<_> = v.iter().enumerate().map(|(i, y)| (i as f64, *y)).collect();
            r.extend(v.iter().enumerate().rev().map(|(i, y)| ((2 * (n / 2) - 1 - i) as f64, -*y)));
            r.into_iter().map(|(x, y)| rot(x, y)).collect()
        }
        3 => {
            // straight, there and back
            (0..n).map(|i| rot(if c.rng.bool(0.3) { -(i as f64) } else { i as f64 }, 0.0)).collect()
        }
        4 => {
            // closed
            let mut v: Vec<_> = (0..n).map(|i| std::f64::consts::TAU * i as f64 / n as f64).map(|a| rot(a.cos(), a.sin() * (0.3 + h))).collect();
            v.push(v[0]);
            v
        }
        _ => (0..n).map(|i| rot(i as f64, 0.0)).collect(),
    };
    let (a, l) = domain(&mut c.rng);
    let st = *c.rng.pick(&[KS::ClampedUniform, KS::ClampedRandom]);
    let ks = knots(&mut c.rng, p, pts.len(), st, a, l);
    let cv = must!(NurbsCurve2D::try_new(p, pts.iter().map(|q| nalgebra::Point3::new(q.x, q.y, 1.0)).collect(), ks.clone()), "try_new");
    c.describe(format!("deceptive {kind} p={p} knots={ks:?} pts={pts:?}"));
    c.shape(&[91, kind as u64, p as u64, n as u64]);
    if c.rng.bool(0.5) { one(c, &cv) } else { one(c, &cv.elevate_dimension()) }
}

fn c34_compound(c: &mut Ctx) -> R {
    if c.rng.bool(0.5) {
        let size = *c.rng.pick(&[0.1, 1.0, 30.0]);
        let l = looped(c, size, &[0.3, -0.2])?;
        let tol = size * 10f64.powf(c.rng.range(-4.5, -1.5));
        c.describe(format!("closed kind {} tolerance {tol} spans {:?}", l.kind, l.rcs.iter().map(|r| (r.p, &r.k, &r.c)).collect::<Vec<_>>()));
        let pts: Vec<V> = l.cc.tessellate(Some(tol)).iter().map(pv).collect();
        compound(c, &l.rcs, &pts, tol, true)
    } else {
        let closed = c.rng.bool(0.3);
        let ss = chain(c, 2, closed);
        let cc: CompoundCurve<f64, Const<3>> = CompoundCurve::new(ss.iter().map(|s| s.c2()).collect());
        let rcs: Vec<RC> = cc.spans().iter().map(RC::of).collect();
        let sc = rcs.iter().map(|r| r.scale()).fold(0.0, f64::max);
        let tol = sc * 10f64.powf(c.rng.range(-4.5, -1.5));
        c.describe(format!("chain closed {closed} tolerance {tol} spans {:?}", rcs.iter().map(|r| (r.p, &r.k, &r.c)).collect::<Vec<_>>()));
        let pts: Vec<V> = cc.tessellate(Some(tol)).iter().map(pv).collect();
        compound(c, &rcs, &pts, tol, closed)
    }
}

/// the points run through the spans one after the other
fn compound(c: &mut Ctx, rcs: &[RC], pts: &[V], tol: f64, closed: bool) -> R {
    let sc = rcs.iter().map(|r| r.scale()).fold(0.0, f64::max);
    let eps = 1e-7 * sc;
    if closed {
        chk!(dist(&pts[0], &pts[pts.len() - 1]) <= eps, "tess-closed", "closed curve from {:?} to {:?}", pts[0], pts[pts.len() - 1]);
    }
    let mut from = 0;
    for (i, rc) in rcs.iter().enumerate() {
        let end = rc.at(rc.dom().1);
        // the first prefix reaching the span's end that follows the span
        let mut last = None;
        for to in from + 1..pts.len() {
            if dist(&pts[to], &end) <= eps && (i + 1 < rcs.len() || to == pts.len() - 1) {
                let r = follows(c, rc, &pts[from..=to], tol, rc.p == 1);
                let ok = r.is_ok();
                last = Some((to, r));
                if ok {
                    break;
                }
            }
        }
        match last {
            Some((to, Ok(()))) => from = to,
            Some((_, Err(Stop::V(k, m)))) => return Err(Stop::V(k, format!("span {i}: {m}"))),
            _ => return Err(Stop::V("tess-joint".into(), format!("no point at the end {end:?} of span {i} after point {from} of {}", pts.len()))),
        }
    }
    chk!(from == pts.len() - 1, "tess-extra", "points beyond the last span");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C33", rule: "distinct (boundary shapes; mesh size) combinations", loads: vec![Workload { name: "regions", f: c33, quick: 400, thorough: 20000 }] },
        Prop {
            id: "C34",
            rule: "distinct (curve shape; number of points) combinations",
            loads: vec![
                Workload { name: "curves", f: c34_curves, quick: 375, thorough: 20000 },
                Workload { name: "deceptive", f: c34_deceptive, quick: 375, thorough: 20000 },
                Workload { name: "compound", f: c34_compound, quick: 300, thorough: 10000 },
            ],
        },
    ]
}
