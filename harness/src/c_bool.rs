//! C24: boolean operations of closed planar boundaries, judged by membership of
//! points away from the boundaries and by areas.
use crate::c_comp::path_ok;
use crate::c_inter::{crossings, Poly, X};
use crate::c_region::*;
use crate::gen::p2;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::operation::BooleanOperation as Op;
use curvo::prelude::*;

type Opt = Option<CurveIntersectionSolverOptions<f64>>;
const OPS: [Op; 3] = [Op::Union, Op::Intersection, Op::Difference];

/// a planar set: loops with their dense polygons; exterior first
struct Set {
    loops: Vec<(Vec<RC>, Vec<V>)>,
    sag: f64,
}
impl Set {
    fn of(r: &Region<f64>) -> Set {
        let mut s = Set { loops: vec![], sag: 0.0 };
        for cc in std::iter::once(r.exterior()).chain(r.interiors()) {
            let rcs: Vec<RC> = cc.spans().iter().map(RC::of).collect();
            let (p, g) = polygon(&rcs, 40);
            s.sag = s.sag.max(g);
            s.loops.push((rcs, p));
        }
        s
    }
    fn has(&self, q: &[f64]) -> bool {
        polyin(q, &self.loops[0].1) && !self.loops[1..].iter().any(|l| polyin(q, &l.1))
    }
    fn dist(&self, q: &[f64]) -> f64 {
        self.loops.iter().map(|l| polyd(q, &l.1)).fold(f64::MAX, f64::min)
    }
    fn area(&self) -> f64 {
        area(&self.loops[0].0).abs() - self.loops[1..].iter().map(|l| area(&l.0).abs()).sum::<f64>()
    }
}

/// points of a boundary at a spacing of at most h
fn walk(p: &[V], h: f64) -> Vec<V> {
    let mut r = vec![];
    for i in 0..p.len() {
        let (a, b) = (&p[i], &p[(i + 1) % p.len()]);
        let m = (dist(a, b) / h).ceil().max(1.0) as usize;
        for k in 0..m {
            r.push(lerp(a, b, k as f64 / m as f64));
        }
    }
    r
}

/// the crossings of two boundaries, or None if they are not in general position
pub fn general(a: &[RC], pa: &[V], b: &[RC], pb: &[V], size: f64) -> Option<Vec<X>> {
    general_above(a, pa, b, pb, size, 0.12)
}
fn general_above(a: &[RC], pa: &[V], b: &[RC], pb: &[V], size: f64, sin: f64) -> Option<Vec<X>> {
    let mut xs: Vec<X> = vec![];
    let qa: Vec<Poly> = a.iter().map(|r| Poly::of(r, 40)).collect();
    let qb: Vec<Poly> = b.iter().map(|r| Poly::of(r, 40)).collect();
    for (i, ra) in a.iter().enumerate() {
        for (j, rb) in b.iter().enumerate() {
            xs.extend(crossings(ra, &qa[i], rb, &qb[j]));
        }
    }
    for (i, x) in xs.iter().enumerate() {
        if x.sin < sin || xs[..i].iter().any(|y| dist(&x.p, &y.p) < 0.03 * size) {
            return None;
        }
    }
    if xs.len() % 2 == 1 {
        return None;
    }
    // corners, joints and seams keep away from the other boundary
    for (r, o) in [(a, pb), (b, pa)] {
        for rc in r {
            for t in rc.breaks() {
                let m = rc.k.iter().filter(|k| **k == t).count();
                if m < rc.p && t > rc.dom().0 && t < rc.dom().1 {
                    continue;
                }
                if polyd(&rc.at(t), o) < 0.01 * size {
                    return None;
                }
            }
        }
    }
    // no other near contact
    for (p, o) in [(pa, pb), (pb, pa)] {
        for q in walk(p, 0.005 * size) {
            let d = polyd(&q, o);
            if d < 0.006 * size && !xs.iter().any(|x| dist(&x.p, &q) * x.sin * 0.7 < d * 1.5 + 0.006 * size) {
                return None;
            }
        }
    }
    Some(xs)
}

fn member(op: Op, a: bool, b: bool) -> bool {
    match op {
        Op::Union => a || b,
        Op::Intersection => a && b,
        Op::Difference => a && !b,
    }
}

/// judge the regions returned for `op`
#[allow(clippy::too_many_arguments)]
fn judge(c: &mut Ctx, op: Op, a: &Set, b: &Set, xs: &[X], out: &[Region<f64>], size: f64, key: &str) -> Result<f64, Stop> {
    let sets: Vec<Set> = out.iter().map(Set::of).collect();
    let mut sag = a.sag + b.sag;
    for (r, s) in out.iter().zip(&sets) {
        sag += s.sag;
        for cc in std::iter::once(r.exterior()).chain(r.interiors()) {
            path_ok(cc, 2e-4 * size.max(1.0), &format!("{key}-boundary"))?;
            let sp = cc.spans();
            let (p, q) = (pv(&sp[0].point_at(sp[0].knots_domain().0)), pv(&sp[sp.len() - 1].point_at(sp[sp.len() - 1].knots_domain().1)));
            chk!(dist(&p, &q) <= 2e-4 * size.max(1.0), format!("{key}-open"), "{op}: a returned boundary is open: {p:?} .. {q:?}");
            c.ev("boundaries", 1);
        }
    }
    let margin = 2.0 * sag + 1e-3 * size;
    let (mut lo, mut hi) = (vec![f64::MAX; 2], vec![f64::MIN; 2]);
    for p in [a, b].iter().flat_map(|s| s.loops.iter().flat_map(|l| &l.1)) {
        for i in 0..2 {
            lo[i] = lo[i].min(p[i]);
            hi[i] = hi[i].max(p[i]);
        }
    }
    let mut qs: Vec<V> = (0..60).map(|_| (0..2).map(|i| c.rng.range(lo[i] - 0.05 * size, hi[i] + 0.05 * size)).collect()).collect();
    for x in xs {
        for _ in 0..6 {
            let (t, r) = (c.rng.range(0.0, 6.3), c.rng.range(0.004, 0.05) * size);
            qs.push(vec![x.p[0] + r * t.cos(), x.p[1] + r * t.sin()]);
        }
    }
    for q in qs {
        if a.dist(&q).min(b.dist(&q)) < margin {
            continue;
        }
        let want = member(op, a.has(&q), b.has(&q));
        let n = sets.iter().filter(|s| s.has(&q)).count();
        chk!(
            n == want as usize,
            format!("{key}-{}", if want { "missing" } else { "extra" }),
            "{op}: point {q:?} (in first: {}, in second: {}) lies in {n} of the {} regions ({} crossings)",
            a.has(&q),
            b.has(&q),
            out.len(),
            xs.len()
        );
        c.ev(if want { "member points" } else { "non-member points" }, 1);
    }
    Ok(sets.iter().map(|s| s.area()).sum())
}

/// the result of all three operations on one pair
fn pair(c: &mut Ctx, ra: &Region<f64>, rb: &Region<f64>, xs: &[X], size: f64, key: &str, run: &mut dyn FnMut(&mut Ctx, Op, &Opt) -> anyhow::Result<Vec<Region<f64>>>) -> R {
    let (a, b) = (Set::of(ra), Set::of(rb));
    let mut ar = [0.0; 3];
    for (i, op) in OPS.iter().enumerate() {
        // leaves of the search small enough to separate the crossings
        let o = options(c).map(|o| {
            let d = o.knot_domain_division.max(100);
            o.with_knot_domain_division(d)
        });
        let out = match run(c, *op, &o) {
            Ok(v) => v,
            Err(e) => {
                return Err(Stop::V(format!("{key}-error"), format!("{op} with {} crossings: {e}; options {o:?}", xs.len())));
            }
        };
        if std::env::var("DBG").is_ok() { eprintln!("{op} {o:?} {:?}", out.iter().map(|r| Set::of(r).loops.iter().map(|l| area(&l.0)).collect::<Vec<_>>()).collect::<Vec<_>>()); }
        ar[i] = judge(c, *op, &a, &b, xs, &out, size, key)?;
        c.ev("operations", 1);
        c.shape(&[i as u64, out.len() as u64, out.iter().map(|r| r.interiors().len() as u64).sum(), xs.len() as u64]);
    }
    let (sa, sb) = (a.area(), b.area());
    if std::env::var("DBG").is_ok() { eprintln!("areas {ar:?} {sa} {sb} loops {:?} {:?} xs {:?}", a.loops.iter().map(|l| area(&l.0)).collect::<Vec<_>>(), b.loops.iter().map(|l| area(&l.0)).collect::<Vec<_>>(), xs); }
    let tol = 2e-4 * size * size * (1.0 + xs.len() as f64);
    c.err("inclusion-exclusion/size^2", (ar[0] + ar[1] - sa - sb).abs() / (size * size));
    chk!((ar[0] + ar[1] - sa - sb).abs() <= tol, format!("{key}-area"), "areas: union {} + intersection {} != {sa} + {sb}", ar[0], ar[1]);
    chk!((ar[2] + ar[1] - sa).abs() <= tol, format!("{key}-area"), "areas: difference {} + intersection {} != {sa}", ar[2], ar[1]);
    Ok(())
}

/// two loops in some arrangement: crossing, nested or disjoint
fn arrange(c: &mut Ctx, want: usize) -> Result<(Loop, Loop, Vec<X>, f64), Stop> {
    let size = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * size).collect() };
    for _ in 0..12 {
        let (r, d) = match want {
            0 => *c.rng.pick(&[(0.7, 0.6), (0.9, 0.05), (1.0, 0.1), (0.8, 0.3), (0.5, 0.9), (1.0, 0.8)]),
            1 => (c.rng.range(0.1, 0.3), c.rng.range(0.0, 0.3)),
            _ => (c.rng.range(0.3, 1.0), c.rng.range(2.2, 3.0)),
        };
        let t = c.rng.range(0.0, 6.3);
        let oo = vec![o[0] + d * size * t.cos(), o[1] + d * size * t.sin()];
        let (r, d) = (r * c.rng.range(0.8, 1.1), d * c.rng.range(0.5, 1.4));
        let Ok(a) = looped(c, size, &o) else { continue };
        let Ok(b) = looped(c, size * r, &oo) else { continue };
        let (a, b) = if c.rng.bool(0.5) { (a, b) } else { (b, a) };
        if a.sag + b.sag > 2e-3 * size {
            continue;
        }
        let Some(xs) = general(&a.rcs, &a.pts, &b.rcs, &b.pts, size) else { continue };
        if (want == 0) != !xs.is_empty() || (xs.len() == 2 && c.rng.bool(0.6)) {
            continue;
        }
        return Ok((a, b, xs, size));
    }
    Err(Stop::Skip("no pair in general position"))
}

fn one(c: &mut Ctx, want: usize) -> R {
    let (a, b, xs, size) = arrange(c, want)?;
    c.describe(format!("kinds {} {} crossings {} first {:?} second {:?}", a.kind, b.kind, xs.len(), a.rcs, b.rcs));
    let (ra, rb): (Region<f64>, Region<f64>) = (a.cc.clone().into(), b.cc.clone().into());
    c.ev(["", "", "pairs with 2 crossings", "", "pairs with 4 crossings", "", "pairs with 6 crossings"].get(xs.len()).unwrap_or(&"pairs with more crossings"), (!xs.is_empty()) as u64);
    c.ev(["crossing pairs", "nested pairs", "disjoint pairs"][want], 1);
    c.shape(&[a.kind as u64, b.kind as u64]);
    let (ua, ub) = (a.cv.is_some() && c.rng.bool(0.7), b.cv.is_some() && c.rng.bool(0.7));
    let key = ["cross", "nested", "disjoint"][want];
    pair(c, &ra, &rb, &xs, size, key, &mut |_c, op, o| {
        Ok(match (ua, ub) {
            (true, true) => a.cv.as_ref().unwrap().boolean(op, b.cv.as_ref().unwrap(), o.clone())?,
            (true, false) => a.cv.as_ref().unwrap().boolean(op, &b.cc, o.clone())?,
            (false, true) => a.cc.boolean(op, b.cv.as_ref().unwrap(), o.clone())?,
            (false, false) => a.cc.boolean(op, &b.cc, o.clone())?,
        }
        .into_regions())
    })
}
fn c24_cross(c: &mut Ctx) -> R {
    one(c, 0)
}
fn c24_apart(c: &mut Ctx) -> R {
    let w = c.rng.int(1, 2);
    one(c, w)
}

/// a region with up to `most` holes strictly inside its exterior
pub fn annular(c: &mut Ctx, size: f64, o: &[f64], most: usize) -> Result<(Region<f64>, Vec<Loop>), Stop> {
    let e = looped(c, size, o)?;
    let mut ls = vec![e];
    let want = c.rng.int(1, most);
    for _ in 0..25 + 15 * (most - 2) {
        if ls.len() > want {
            break;
        }
        let r = size * if most > 2 { c.rng.range(0.06, 0.25) } else { c.rng.range(0.12, 0.5) };
        let oo = vec![o[0] + c.rng.range(-0.5, 0.5) * size, o[1] + c.rng.range(-0.5, 0.5) * size];
        let Ok(h) = looped(c, r, &oo) else { continue };
        if h.pts.iter().all(|p| polyin(p, &ls[0].pts) && polyd(p, &ls[0].pts) > 0.03 * size)
            && general(&h.rcs, &h.pts, &ls[0].rcs, &ls[0].pts, size).is_some_and(|x| x.is_empty())
            && ls[1..].iter().all(|l| {
                general(&h.rcs, &h.pts, &l.rcs, &l.pts, size).is_some_and(|x| x.is_empty()) && !polyin(&h.pts[0], &l.pts) && !polyin(&l.pts[0], &h.pts)
            })
        {
            ls.push(h);
        }
    }
    if ls.len() == 1 {
        return Err(Stop::Skip("no room for a hole"));
    }
    Ok((Region::new(ls[0].cc.clone(), ls[1..].iter().map(|l| l.cc.clone()).collect()), ls))
}

fn regions(c: &mut Ctx, both: bool) -> R {
    let size = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * size).collect() };
    for _ in 0..14 {
        let Ok((ra, la)) = annular(c, size, &o, 2) else { continue };
        let (r, d) = *c.rng.pick(&[(0.8, 0.6), (1.0, 0.3), (0.6, 0.3), (0.4, 0.2), (0.5, 0.9), (0.3, 0.4), (0.1, 0.3), (2.2, 0.2), (0.8, 2.3)]);
        let (r, d, t) = (r * c.rng.range(0.8, 1.2), d * c.rng.range(0.3, 1.4), c.rng.range(0.0, 6.3));
        let oo = vec![o[0] + d * size * t.cos(), o[1] + d * size * t.sin()];
        let (rb, lb) = if both {
            let Ok(x) = annular(c, size * r, &oo, 2) else { continue };
            x
        } else {
            let Ok(l) = looped(c, size * r, &oo) else { continue };
            (Region::new(l.cc.clone(), vec![]), vec![l])
        };
        if la.iter().chain(&lb).map(|l| l.sag).sum::<f64>() > 3e-3 * size {
            continue;
        }
        let mut xs = vec![];
        let ok = la.iter().all(|a| {
            lb.iter().all(|b| match general(&a.rcs, &a.pts, &b.rcs, &b.pts, size.min(size * r * 3.0)) {
                Some(x) => {
                    xs.extend(x);
                    true
                }
                None => false,
            })
        });
        if !ok || (xs.len() <= 2 && c.rng.bool(0.5)) {
            continue;
        }
        c.describe(format!(
            "first {:?} second {:?}",
            la.iter().map(|l| (l.kind, &l.rcs)).collect::<Vec<_>>(),
            lb.iter().map(|l| (l.kind, &l.rcs)).collect::<Vec<_>>()
        ));
        c.ev("region pairs", 1);
        c.ev("crossings of regions", xs.len() as u64);
        let cv = lb[0].cv.clone().filter(|_| c.rng.bool(0.5));
        return pair(c, &ra, &rb, &xs, size, if both { "region-region" } else { "region-curve" }, &mut |_c, op, o| {
            Ok(match &cv {
                _ if both => ra.boolean(op, &rb, o.clone())?,
                Some(cv) => ra.boolean(op, cv, o.clone())?,
                None => ra.boolean(op, rb.exterior(), o.clone())?,
            }
            .into_regions())
        });
    }
    Err(Stop::Skip("no pair in general position"))
}
fn c24_region(c: &mut Ctx) -> R {
    regions(c, false)
}
fn c24_regions(c: &mut Ctx) -> R {
    regions(c, true)
}

/// a region with a C-shaped hole, holes within its arms and elsewhere, and a curve
/// closing the C: the difference leaves an island
fn c24_islands(c: &mut Ctx) -> R {
    let size = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * size).collect() };
    for _ in 0..40 {
        let k = *c.rng.pick(&[0usize, 1, 3, 5]);
        let Ok(e) = looped_kind(c, k, size * 1.6, &o) else { continue };
        let th = c.rng.range(0.0, 6.3);
        let gap = c.rng.range(0.5, 1.6);
        let (r1, r2) = (c.rng.range(0.28, 0.36), c.rng.range(0.45, 0.58));
        let arc = |r: f64, a: f64| -> V { vec![o[0] + r * size * (th + a).cos(), o[1] + r * size * (th + a).sin()] };
        let n = c.rng.int(5, 12);
        let (a0, a1) = (gap / 2.0, std::f64::consts::TAU - gap / 2.0);
        let mut ring: Vec<V> = (0..=n).map(|i| arc(r2, a0 + (a1 - a0) * i as f64 / n as f64)).collect();
        ring.extend((0..=n).rev().map(|i| arc(r1, a0 + (a1 - a0) * i as f64 / n as f64)));
        if c.rng.bool(0.5) {
            ring.reverse();
        }
        let cut = c.rng.int(0, ring.len() - 1);
        ring.rotate_left(cut);
        ring.push(ring[0].clone());
        let cv = NurbsCurve2D::polyline(&ring.iter().map(|p| p2(p)).collect::<Vec<_>>(), true);
        let rcs = vec![RC::of(&cv)];
        let pts = polygon(&rcs, 40).0;
        let mut ls = vec![Loop { cc: cv.clone().into(), cv: Some(cv), rcs, pts, sag: 0.0, size, kind: 90 }];
        // small holes: within the arms, in the gap, outside
        let inner = c.rng.bool(0.6);
        for k in 0..c.rng.int(inner as usize, 3) {
            let (r, a, q) = if inner && k == 0 { (c.rng.range(0.0, 0.12), c.rng.range(0.0, 6.3), 0.08) } else { *c.rng.pick(&[(0.1, 0.0, 0.08), (0.12, 2.0, 0.08), (0.15, 4.0, 0.05), (0.75, 2.5, 0.1), (0.7, 1.0, 0.08), (0.8, 4.0, 0.08)]) };
            let p = arc(r, a);
            if let Ok(l) = looped(c, q * size, &p) {
                ls.push(l);
            }
        }
        let i = c.rng.int(0, ls.len() - 1);
        ls.swap(0, i);
        let apart = |a: &Loop, b: &Loop| general(&a.rcs, &a.pts, &b.rcs, &b.pts, size).is_some_and(|x| x.is_empty());
        if !(0..ls.len()).all(|i| {
            ls[i].pts.iter().all(|p| polyin(p, &e.pts)) && apart(&ls[i], &e) && (0..i).all(|j| apart(&ls[i], &ls[j]) && !polyin(&ls[i].pts[0], &ls[j].pts) && !polyin(&ls[j].pts[0], &ls[i].pts))
        }) {
            continue;
        }
        let m = arc((r1 + r2) / 2.0, 0.0);
        let rad = size * (r2 * (gap / 2.0).sin() * c.rng.range(1.05, 1.5));
        let Ok(b) = looped(c, rad, &m) else { continue };
        let mut xs = vec![];
        let ok = std::iter::once(&e).chain(&ls).all(|a| match general(&a.rcs, &a.pts, &b.rcs, &b.pts, size * 0.5) {
            Some(x) => {
                xs.extend(x);
                true
            }
            None => false,
        });
        if !ok || xs.len() < 4 || e.sag + b.sag + ls.iter().map(|l| l.sag).sum::<f64>() > 3e-3 * size {
            continue;
        }
        let mut all = vec![e];
        all.extend(ls);
        let ra = Region::new(all[0].cc.clone(), all[1..].iter().map(|l| l.cc.clone()).collect());
        let rb: Region<f64> = b.cc.clone().into();
        c.describe(format!("first {:?} second {:?}", all.iter().map(|l| (l.kind, &l.rcs)).collect::<Vec<_>>(), b.rcs));
        c.ev("C-shaped holes", 1);
        c.ev("holes beside a C-shaped one", all.len() as u64 - 2);
        return pair(c, &ra, &rb, &xs, size, "islands", &mut |_c, op, o| Ok(ra.boolean(op, &b.cc, o.clone())?.into_regions()));
    }
    Err(Stop::Skip("no arrangement in general position"))
}

/// a box crossed by another polygon: once at a shallow angle, once well
fn c24_shallow(c: &mut Ctx) -> R {
    let size = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * size).collect() };
    let th = c.rng.range(0.0, 6.3);
    let flip = if c.rng.bool(0.5) { -1.0 } else { 1.0 };
    let at = |x: f64, y: f64| p2(&[o[0] + size * (x * th.cos() - flip * y * th.sin()), o[1] + size * (x * th.sin() + flip * y * th.cos())]);
    let phi = c.rng.range(0.02, 0.06);
    let m = c.rng.range(-0.4, 0.3);
    let lo = m - c.rng.range(0.4, 0.9 + m.min(0.0));
    let hi = c.rng.range(1.3, 2.0);
    let y = |x: f64| 1.0 + (x - m) * phi.tan();
    let (bx, by) = (c.rng.range(-0.6, 0.6), c.rng.range(-0.6, 0.5));
    let mut made = vec![];
    for pts in [
        vec![at(-1.0, -1.0), at(1.0, -1.0), at(1.0, 1.0), at(-1.0, 1.0)],
        vec![at(lo, y(lo)), at(bx, by - 0.2), at(hi, c.rng.range(-0.8, 0.2)), at(hi, y(hi))],
    ] {
        let mut pts = pts;
        if c.rng.bool(0.5) {
            pts.reverse();
        }
        let k = c.rng.int(0, 3);
        pts.rotate_left(k);
        pts.push(pts[0]);
        let mut cv = NurbsCurve2D::polyline(&pts, true);
        if c.rng.bool(0.3) {
            let d = c.rng.int(2, 3);
            cv = must!(cv.try_elevate_degree(d), "elevate");
        }
        let rcs = vec![RC::of(&cv)];
        let poly = polygon(&rcs, 40).0;
        made.push((cv, rcs, poly));
    }
    if c.rng.bool(0.5) {
        made.swap(0, 1);
    }
    let ((a, ra, pa), (b, rb, pb)) = (&made[0], &made[1]);
    let Some(xs) = general_above(ra, pa, rb, pb, size, 0.015) else { return Err(Stop::Skip("not in general position")) };
    if xs.len() != 2 || xs.iter().filter(|x| x.sin < 0.12).count() != 1 {
        return Err(Stop::Skip("not the crossings asked for"));
    }
    c.describe(format!("first {ra:?} second {rb:?}"));
    c.ev("pairs with a shallow crossing", 1);
    c.shape(&[ra[0].p as u64, rb[0].p as u64, (phi * 100.0) as u64]);
    let (ga, gb): (Region<f64>, Region<f64>) = (a.clone().into(), b.clone().into());
    pair(c, &ga, &gb, &xs, size, "shallow", &mut |_c, op, o| Ok(a.boolean(op, b, o.clone())?.into_regions()))
}

/// bands around a common middle: the holes & exteriors nest several levels deep
fn c24_rings(c: &mut Ctx) -> R {
    let size = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * size).collect() };
    let apart = |a: &Loop, b: &Loop, h: f64| general(&a.rcs, &a.pts, &b.rcs, &b.pts, h).is_some_and(|x| x.is_empty());
    for _ in 0..30 {
        let mut ls: Vec<Loop> = vec![];
        let mut r = size * 2.0;
        for _ in 0..24 {
            if ls.len() == 4 {
                break;
            }
            let h = r * c.rng.range(0.45, 0.7);
            let oo: V = (0..2).map(|i| o[i] + c.rng.range(-0.12, 0.12) * r).collect();
            let Ok(l) = looped(c, h, &oo) else { continue };
            if ls.last().is_none_or(|e| l.pts.iter().all(|p| polyin(p, &e.pts) && polyd(p, &e.pts) > 0.03 * h) && apart(&l, e, h)) {
                ls.push(l);
                r = h;
            }
        }
        if ls.len() < 4 {
            continue;
        }
        // which loops make up which region
        let (a, b) = *c.rng.pick(&[([0, 1], [2, 3]), ([0, 1], [2, 3]), ([0, 2], [1, 3]), ([0, 3], [1, 2])]);
        // further holes within the bands
        let mut extra: [Vec<Loop>; 2] = [vec![], vec![]];
        for (k, band) in [a, b].iter().enumerate() {
            if !c.rng.bool(0.7) {
                continue;
            }
            for _ in 0..12 {
                let t = c.rng.range(0.0, 6.3);
                let w = c.rng.range(0.3, 0.9);
                let e = &ls[band[0]];
                let i = ((t / 6.3) * e.pts.len() as f64) as usize % e.pts.len();
                let p = lerp(&o, &e.pts[i], w);
                let Ok(l) = looped(c, 0.08 * e.size, &p) else { continue };
                let clear = |m: &Loop| apart(&l, m, l.size * 2.0) && polyd(&p, &m.pts) > 1.3 * l.size;
                if polyin(&p, &ls[band[0]].pts) && !polyin(&p, &ls[band[1]].pts) && ls.iter().chain(extra.iter().flatten()).all(clear) {
                    extra[k].push(l);
                    break;
                }
            }
        }
        if ls.iter().chain(extra.iter().flatten()).map(|l| l.sag).sum::<f64>() > 3e-3 * ls[3].size {
            continue;
        }
        let mut made = vec![];
        for (band, more) in [a, b].iter().zip(&extra) {
            let mut holes: Vec<&Loop> = std::iter::once(&ls[band[1]]).chain(more).collect();
            if c.rng.bool(0.5) {
                holes.reverse();
            }
            made.push(Region::new(ls[band[0]].cc.clone(), holes.iter().map(|l| l.cc.clone()).collect()));
        }
        if c.rng.bool(0.5) {
            made.swap(0, 1);
        }
        c.describe(format!("nested {:?} bands {a:?} {b:?} further holes {:?}", ls.iter().map(|l| (l.kind, &l.rcs)).collect::<Vec<_>>(), extra.iter().flatten().map(|l| (l.kind, &l.rcs)).collect::<Vec<_>>()));
        c.ev("nested bands", 1);
        c.ev("further holes of bands", extra.iter().flatten().count() as u64);
        c.shape(&[a[1] as u64, extra[0].len() as u64, extra[1].len() as u64]);
        let (ra, rb) = (&made[0], &made[1]);
        return pair(c, ra, rb, &[], size, "rings", &mut |_c, op, o| Ok(ra.boolean(op, rb, o.clone())?.into_regions()));
    }
    Err(Stop::Skip("no nest in general position"))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        rule: "distinct pairs of boundary kinds, arrangements, crossing counts and result structures",
        loads: vec![
            Workload { name: "crossing", f: c24_cross, quick: 250, thorough: 20000 },
            Workload { name: "apart", f: c24_apart, quick: 100, thorough: 5000 },
            Workload { name: "region-curve", f: c24_region, quick: 100, thorough: 10000 },
            Workload { name: "islands", f: c24_islands, quick: 40, thorough: 4000 },
            Workload { name: "shallow", f: c24_shallow, quick: 200, thorough: 5000 },
            Workload { name: "rings", f: c24_rings, quick: 30, thorough: 5000 },
            Workload { name: "region-region", f: c24_regions, quick: 60, thorough: 10000 },
        ],
    }]
}
