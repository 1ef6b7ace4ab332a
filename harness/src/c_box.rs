//! C18: bounding boxes, box trees, traversal.
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim};
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, DimNameDiff, DimNameSub, Point2, Point3, Vector2, Vector3, U1};

fn c18_box(c: &mut Ctx) -> R {
    // coordinates on a small grid so that touching and degenerate boxes are common
    let grid = c.rng.bool(0.6);
    let sc = *c.rng.pick(&[1.0, 0.125, 1024.0]);
    let mut x = |c: &mut Ctx| if grid { c.rng.int(0, 6) as f64 * sc - 3.0 * sc } else { c.rng.range(-3.0, 3.0) * sc };
    let dim = c.rng.int(2, 3);
    let v: Vec<V> = (0..5).map(|_| (0..dim).map(|_| x(c)).collect()).collect();
    c.describe(format!("box corners {:?} {:?} / {:?} {:?}, point {:?}", v[0], v[1], v[2], v[3], v[4]));
    c.shape(&v.iter().flatten().map(|y| (*y / sc * 64.0) as i64 as u64).collect::<Vec<_>>());
    let lo = |a: &V, b: &V| -> V { a.iter().zip(b).map(|(x, y)| x.min(*y)).collect() };
    let hi = |a: &V, b: &V| -> V { a.iter().zip(b).map(|(x, y)| x.max(*y)).collect() };
    let (a0, a1, b0, b1) = (lo(&v[0], &v[1]), hi(&v[0], &v[1]), lo(&v[2], &v[3]), hi(&v[2], &v[3]));
    let meet = (0..dim).all(|i| a0[i] <= b1[i] && b0[i] <= a1[i]);
    let gap = (0..dim).map(|i| (b0[i] - a1[i]).max(a0[i] - b1[i])).fold(f64::MIN, f64::max);
    let inside = |p: &V| (0..dim).all(|i| a0[i] <= p[i] && p[i] <= a1[i]);
    macro_rules! run {
        ($vec:ident, $pt:ident, $f:expr, $n:expr) => {{
            let f = $f;
            let a = BoundingBox::new(f(&v[0]), f(&v[1]));
            let b = BoundingBox::new(f(&v[2]), f(&v[3]));
            chk!(vv(a.min()) == a0 && vv(a.max()) == a1, "box-new", "box of {:?} {:?} spans {:?} {:?}", v[0], v[1], a.min(), a.max());
            let ce: V = (0..dim).map(|i| (a0[i] + a1[i]) / 2.0).collect();
            chk!(dist(&vv(&a.center()), &ce) <= 1e-12 * sc, "box-center", "center {:?}", a.center());
            chk!(dist(&vv(&a.size()), &sub(&a1, &a0)) <= 1e-12 * sc, "box-size", "size {:?}", a.size());
            let p: BoundingBox<f64, nalgebra::Const<$n>> = v.iter().map(|q| $pt::from(f(q))).collect();
            let p2 = BoundingBox::new_with_points(v.iter().map(|q| $pt::from(f(q))));
            let (l, h) = (v.iter().skip(1).fold(v[0].clone(), |a, b| lo(&a, b)), v.iter().skip(1).fold(v[0].clone(), |a, b| hi(&a, b)));
            chk!(vv(p.min()) == l && vv(p.max()) == h && vv(p2.min()) == l && vv(p2.max()) == h, "box-points", "box of {v:?} spans {:?} {:?}", p.min(), p.max());
            for q in &v {
                chk!(a.contains(&$pt::from(f(q))) == inside(q), "box-contains", "contains({q:?}) = {} for {a0:?}..{a1:?}", !inside(q));
                chk!(p.contains(&$pt::from(f(q))), "box-contains", "a box of points misses {q:?}");
            }
            for t in [None, Some(0.0)] {
                chk!(a.intersects(&b, t) == meet, "box-intersects", "{a0:?}..{a1:?} and {b0:?}..{b1:?}: intersects {} (tolerance {t:?})", !meet);
                chk!(b.intersects(&a, t) == meet, "box-intersects", "not symmetric");
                chk!(a.intersects(&a, t), "box-intersects", "a box does not meet itself");
            }
            // a generous tolerance closes the gap
            if gap > 0.0 {
                chk!(a.intersects(&b, Some(gap * 1.01)), "box-tolerance", "gap {gap} not bridged");
                chk!(!a.intersects(&b, Some(gap * 0.45)), "box-tolerance", "gap {gap} bridged by less than half of it");
            } else {
                chk!(a.intersects(&b, Some(0.5 * sc)), "box-tolerance", "tolerance separates meeting boxes");
            }
            // corners and edges
            let cs: Vec<V> = a.corners().iter().map(|p| pv(p)).collect();
            chk!(cs.len() == 1 << dim, "box-corners", "{} corners", cs.len());
            for m in 0..1usize << dim {
                let w: V = (0..dim).map(|i| if m >> i & 1 == 1 { a1[i] } else { a0[i] }).collect();
                chk!(cs.contains(&w), "box-corners", "corner {w:?} missing");
            }
            for (s, e) in a.lines() {
                let (s, e) = (pv(&s), pv(&e));
                let diff = (0..dim).filter(|i| s[*i] != e[*i]).count();
                chk!(diff <= 1 && cs.contains(&s) && cs.contains(&e), "box-lines", "edge {s:?} {e:?}");
            }
            // every edge is there
            for m in 0..1usize << dim {
                for i in 0..dim {
                    let w = |m: usize| -> V { (0..dim).map(|i| if m >> i & 1 == 1 { a1[i] } else { a0[i] }).collect() };
                    let (s, e) = (w(m), w(m ^ (1 << i)));
                    chk!(a.lines().iter().any(|(x, y)| (pv(x) == s && pv(y) == e) || (pv(x) == e && pv(y) == s)), "box-lines", "edge {s:?} {e:?} missing");
                }
            }
            let w: BoundingBox<f64, nalgebra::Const<$n>> = a.cast();
            chk!(w.min() == a.min() && w.max() == a.max(), "box-cast", "cast");
        }};
    }
    if dim == 2 {
        run!(Vector2, Point2, |q: &V| Vector2::new(q[0], q[1]), 2);
    } else {
        run!(Vector3, Point3, |q: &V| Vector3::new(q[0], q[1], q[2]), 3);
    }
    c.ev("boxes", 2);
    Ok(())
}

fn holds(bb: (&V, &V), q: &[f64], tol: f64) -> bool {
    (0..q.len()).all(|i| q[i] >= bb.0[i] - tol && q[i] <= bb.1[i] + tol)
}

fn c18_geom(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, ..Default::default() });
    on_dim!(s, cv => {
        let bb = BoundingBox::from(&cv);
        let (lo, hi) = (vv(bb.min()), vv(bb.max()));
        let rc = RC::of(&cv);
        for u in rc.params(8) {
            let q = rc.at(u);
            chk!(holds((&lo, &hi), &q, 1e-10 * rc.scale()), "curve-box", "the curve at {u} is {q:?}, outside {lo:?}..{hi:?}");
            c.ev("points_in_boxes", 1);
        }
    });
    let s = sspec(c, &SOpt::default());
    let f = s.s3();
    let bb = BoundingBox::from(&f);
    let (lo, hi) = (vv(bb.min()), vv(bb.max()));
    let rs = RS::of(&f);
    let ((u0, u1), (v0, v1)) = rs.dom();
    for i in 0..=8 {
        for j in 0..=8 {
            let q = rs.at(u0 + (u1 - u0) * i as f64 / 8.0, v0 + (v1 - v0) * j as f64 / 8.0);
            chk!(holds((&lo, &hi), &q, 1e-10 * rs.scale()), "surface-box", "surface point {q:?} outside {lo:?}..{hi:?}");
            c.ev("points_in_boxes", 1);
        }
    }
    Ok(())
}

fn tree_any<D>(c: &mut Ctx, cv: &NurbsCurve<f64, D>) -> R
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC::of(cv);
    let (a, b) = rc.dom();
    let sc = rc.scale();
    let tol = if c.rng.bool(0.3) { None } else { Some((b - a) / *c.rng.pick(&[4.0, 16.0, 50.0])) };
    let root = CurveBoundingBoxTree::new(cv, tol);
    let mut stack = vec![(root, a, b, 0usize)];
    let mut leaves: Vec<(f64, f64)> = vec![];
    let mut nodes = 0u64;
    while let Some((t, lo, hi, depth)) = stack.pop() {
        nodes += 1;
        chk!(depth < 40 && nodes < 20000, "tree-endless", "subdivision does not end (depth {depth}, {nodes} nodes)");
        let d = t.curve().knots_domain();
        chk!(d == (lo, hi), "tree-domain", "node covers {d:?}, expected {:?}", (lo, hi));
        let bb = t.bounding_box();
        let (l, h) = (vv(bb.min()), vv(bb.max()));
        for j in 0..=4 {
            let u = lo + (hi - lo) * j as f64 / 4.0;
            let q = rc.at(u);
            chk!(holds((&l, &h), &q, 1e-9 * sc), "tree-box", "node {d:?} box {l:?}..{h:?} misses the curve at {u}: {q:?}");
            let g = RC::of(t.curve()).at(u);
            chk!(dist(&g, &q) <= 1e-8 * sc || rc.k.contains(&u), "tree-curve", "node curve at {u} {g:?}, original {q:?}");
        }
        if t.is_dividable() {
            let (x, y) = must!(t.try_divide(), "tree-divide");
            let m = x.curve().knots_domain().1;
            chk!(m > lo && m < hi, "tree-split", "split of {:?} at {m}", (lo, hi));
            stack.push((x, lo, m, depth + 1));
            stack.push((y, m, hi, depth + 1));
        } else {
            leaves.push((lo, hi));
        }
    }
    leaves.sort_by(|x, y| x.partial_cmp(y).unwrap());
    chk!(leaves[0].0 == a && leaves[leaves.len() - 1].1 == b && leaves.windows(2).all(|w| w[0].1 == w[1].0), "tree-cover", "leaves do not cover the domain");
    c.ev("tree_nodes", nodes);
    Ok(())
}
fn c18_tree(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, ..Default::default() });
    on_dim!(s, cv => tree_any(c, &cv))
}

fn c18_stree(c: &mut Ctx) -> R {
    let s = sspec(c, &SOpt { pmax: 3, extra: 3, ..Default::default() });
    let f = s.s3();
    let rs = RS::of(&f);
    let ((a, b), (p, q)) = rs.dom();
    let sc = rs.scale();
    let n = *c.rng.pick(&[2.0, 5.0, 9.0]);
    let dir = *c.rng.pick(&[UVDirection::U, UVDirection::V]);
    // the default is a 64th of the domain, which would make too many nodes of a large surface
    let tol = if rs.c.len() * rs.c[0].len() <= 9 && c.rng.bool(0.03) { None } else { Some(((b - a) / n, (q - p) / n)) };
    let mut stack = vec![(SurfaceBoundingBoxTree::new(&f, dir, tol), (a, b), (p, q), 0)];
    c.ev("surface trees to the default depth", tol.is_none() as u64);
    let mut area = 0.0;
    let mut nodes = 0u64;
    while let Some((t, ud, vd, depth)) = stack.pop() {
        nodes += 1;
        chk!(depth < 40 && nodes < if tol.is_none() { 80000 } else { 20000 }, "stree-endless", "subdivision does not end");
        let d = t.surface().knots_domain();
        chk!(d == (ud, vd), "stree-domain", "node covers {d:?}, expected {:?}", (ud, vd));
        let bb = t.bounding_box();
        let (l, h) = (vv(bb.min()), vv(bb.max()));
        let tr = RS::of(t.surface());
        for i in 0..=3 {
            for j in 0..=3 {
                let (u, v) = (ud.0 + (ud.1 - ud.0) * (i as f64 + 0.01) / 3.02, vd.0 + (vd.1 - vd.0) * (j as f64 + 0.01) / 3.02);
                let w = rs.at(u, v);
                chk!(holds((&l, &h), &w, 1e-9 * sc), "stree-box", "node {d:?} box {l:?}..{h:?} misses the surface at ({u}, {v}): {w:?}");
                chk!(dist(&tr.at(u, v), &w) <= 1e-8 * sc, "stree-surface", "node surface at ({u}, {v}) departs from the original");
            }
        }
        if t.is_dividable() {
            let (x, y) = must!(t.try_divide(), "stree-divide");
            let (dx, dy) = (x.surface().knots_domain(), y.surface().knots_domain());
            let ok = if dx.1 == vd { dy.1 == vd && dx.0 .0 == ud.0 && dx.0 .1 == dy.0 .0 && dy.0 .1 == ud.1 } else { dx.0 == ud && dy.0 == ud && dx.1 .0 == vd.0 && dx.1 .1 == dy.1 .0 && dy.1 .1 == vd.1 };
            chk!(ok, "stree-split", "{:?} split into {dx:?} and {dy:?}", (ud, vd));
            stack.push((x, dx.0, dx.1, depth + 1));
            stack.push((y, dy.0, dy.1, depth + 1));
        } else {
            area += (ud.1 - ud.0) * (vd.1 - vd.0);
        }
    }
    chk!((area / ((b - a) * (q - p)) - 1.0).abs() < 1e-9, "stree-cover", "leaves cover {area}");
    c.ev("tree_nodes", nodes);
    Ok(())
}

/// two curves through one common point: some surviving pair of pieces holds it
fn trav_any<D>(c: &mut Ctx, s: &Spec, mk: fn(&Spec) -> NurbsCurve<f64, D>) -> R
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let dim = s.pts[0].len();
    let mut s2 = spec(&mut c.rng, &SpecOpt { dim, pmax: 4, extra: 4, w: Some(W::Mild), ..Default::default() });
    let a = mk(s);
    let ra = RC::of(&a);
    let rb = RC::of(&mk(&s2));
    let gp = |c: &mut Ctx, r: &RC| {
        let (x, y) = r.dom();
        x + (y - x) * c.rng.range(0.02, 0.98)
    };
    let (t, u) = (gp(c, &ra), gp(c, &rb));
    let d = sub(&ra.at(t), &rb.at(u));
    for p in s2.pts.iter_mut() {
        *p = add(p, &d);
    }
    c.describe(format!("{} and {} meeting at {t} / {u}", s.desc(), s2.desc()));
    let b = mk(&s2);
    let n = *c.rng.pick(&[4.0, 10.0, 50.0]);
    let ta = CurveBoundingBoxTree::new(&a, Some(a.knots_domain_interval() / n));
    let tb = CurveBoundingBoxTree::new(&b, Some(b.knots_domain_interval() / n));
    let tr = must!(BoundingBoxTraversal::try_traverse(ta, tb), "traverse");
    let e = 1e-9;
    let hit = tr.pairs_iter().any(|(x, y)| {
        let (p, q) = (x.curve().knots_domain(), y.curve().knots_domain());
        t >= p.0 - e && t <= p.1 + e && u >= q.0 - e && u <= q.1 + e
    });
    chk!(hit, "traversal-lost", "none of the {} pairs holds the common point at {t} / {u}", tr.pairs().len());
    let np = tr.pairs().len() as u64;
    chk!(tr.pairs_iter().all(|(x, y)| !x.is_dividable() && !y.is_dividable()), "traversal-leaf", "a pair is still dividable");
    chk!(tr.pairs_iter().all(|(x, y)| x.bounding_box().intersects(&y.bounding_box(), None)), "traversal-apart", "a pair of boxes does not meet");
    let seen: Vec<_> = tr.pairs().iter().map(|(x, y)| (x.curve().knots_domain(), y.curve().knots_domain())).collect();
    let owned: Vec<_> = if c.rng.bool(0.5) { tr.into_pairs() } else { tr.into_pairs_iter().collect() };
    chk!(owned.iter().map(|(x, y)| (x.curve().knots_domain(), y.curve().knots_domain())).eq(seen.iter().cloned()), "traversal-pairs", "taking the pairs out gives other ones");
    c.ev("traversals", 1);
    c.ev("pairs", np);
    Ok(())
}
fn c18_trav(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 4, extra: 4, w: Some(W::Mild), ..Default::default() });
    if dim == 2 { trav_any(c, &s, |s| s.c2()) } else { trav_any(c, &s, |s| s.c3()) }
}
fn c18_strav(c: &mut Ctx) -> R {
    let f = sspec(c, &SOpt { pmax: 3, extra: 3, w: Some(W::Mild), ..Default::default() });
    let sf = f.s3();
    let rs = RS::of(&sf);
    let ((a, b), (p, q)) = rs.dom();
    let (u, v) = (c.rng.range(a, b), c.rng.range(p, q));
    let mut s = spec(&mut c.rng, &SpecOpt { dim: 3, pmax: 3, extra: 3, w: Some(W::Mild), ..Default::default() });
    let rc = RC { p: s.p, k: s.knots.clone(), c: s.hom() };
    let (x, y) = rc.dom();
    let t = x + (y - x) * c.rng.range(0.02, 0.98);
    let d = sub(&rs.at(u, v), &rc.at(t));
    for z in s.pts.iter_mut() {
        *z = add(z, &d);
    }
    c.describe(format!("{} and {} meeting at ({u}, {v}) / {t}", f.desc(), s.desc()));
    let cv = s.c3();
    let n = *c.rng.pick(&[3.0, 6.0, 12.0]);
    let ta = SurfaceBoundingBoxTree::new(&sf, UVDirection::U, Some(((b - a) / n, (q - p) / n)));
    let tb = CurveBoundingBoxTree::new(&cv, Some((y - x) / n));
    let tr = must!(BoundingBoxTraversal::try_traverse(ta, tb), "traverse");
    let e = 1e-9;
    let hit = tr.pairs_iter().any(|(m, k)| {
        let (d, g) = (m.surface().knots_domain(), k.curve().knots_domain());
        t >= g.0 - e && t <= g.1 + e && u >= d.0 .0 - e && u <= d.0 .1 + e && v >= d.1 .0 - e && v <= d.1 .1 + e
    });
    chk!(hit, "straversal-lost", "none of the {} pairs holds the common point ({u}, {v}) / {t}", tr.pairs().len());
    c.ev("traversals", 1);
    c.ev("pairs", tr.pairs().len() as u64);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        rule: "boxes on a small grid (touching, degenerate) and random; curves/surfaces of every knot style; full subdivision trees; pairs of objects translated to share one point; distinct = structure and coordinate signatures",
        loads: vec![
            Workload { name: "box", f: c18_box, quick: 32000, thorough: 160000 },
            Workload { name: "geometry", f: c18_geom, quick: 12000, thorough: 60000 },
            Workload { name: "tree", f: c18_tree, quick: 4000, thorough: 20000 },
            Workload { name: "surface-tree", f: c18_stree, quick: 1600, thorough: 8000 },
            Workload { name: "traversal", f: c18_trav, quick: 4800, thorough: 24000 },
            Workload { name: "surface-traversal", f: c18_strav, quick: 1600, thorough: 8000 },
        ],
    }]
}
