//! C23 (containment), C24 (booleans), C33 (region triangulation): closed planar
//! boundaries judged against a dense polygon of the same boundary.
use crate::c_comp::{path_ok, piece};
use crate::c_inter::{crossings, Poly};
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{Const, Point2, Vector2};

pub type Comp = CompoundCurve<f64, Const<3>>;

pub struct Loop {
    pub cc: Comp,
    pub cv: Option<NurbsCurve2D<f64>>,
    pub rcs: Vec<RC>,
    pub pts: Vec<V>,
    pub sag: f64,
    pub size: f64,
    pub kind: usize,
}

/// dense closed polygon of a chain of spans
pub fn polygon(rcs: &[RC], per: usize) -> (Vec<V>, f64) {
    let (mut pts, mut sag) = (vec![], 0.0f64);
    for rc in rcs {
        let br = rc.breaks();
        let m = if rc.p == 1 { 1 } else { per };
        for w in br.windows(2) {
            let mut prev = rc.at(w[0]);
            for i in 0..m {
                let (a, b) = (w[0] + (w[1] - w[0]) * i as f64 / m as f64, w[0] + (w[1] - w[0]) * (i + 1) as f64 / m as f64);
                let q = rc.at(b);
                if m > 1 {
                    sag = sag.max(segd(&rc.at(0.5 * (a + b)), &prev, &q));
                }
                pts.push(prev);
                prev = q;
            }
        }
    }
    (pts, sag)
}
pub fn segd(q: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l > 0.0 { (dot(&sub(q, a), &d) / l).clamp(0.0, 1.0) } else { 0.0 };
    dist(q, &add(a, &mul(&d, t)))
}
pub fn polyd(q: &[f64], p: &[V]) -> f64 {
    (0..p.len()).map(|i| segd(q, &p[i], &p[(i + 1) % p.len()])).fold(f64::MAX, f64::min)
}
pub fn polyin(q: &[f64], p: &[V]) -> bool {
    let mut r = false;
    for i in 0..p.len() {
        let (a, b) = (&p[i], &p[(i + 1) % p.len()]);
        if (a[1] > q[1]) != (b[1] > q[1]) && q[0] < a[0] + (q[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]) {
            r = !r;
        }
    }
    r
}
pub fn polya(p: &[V]) -> f64 {
    0.5 * (0..p.len())
        .map(|i| {
            let (a, b) = (&p[i], &p[(i + 1) % p.len()]);
            a[0] * b[1] - a[1] * b[0]
        })
        .sum::<f64>()
}
/// signed area enclosed by the spans (Green), exact up to quadrature
pub fn area(rcs: &[RC]) -> f64 {
    let o = rcs[0].at(rcs[0].dom().0);
    rcs.iter()
        .map(|rc| {
            rc.breaks()
                .windows(2)
                .map(|w| {
                    let f = |t: f64| {
                        let d = rc.ders_in(span_of(&rc.k, rc.p, 0.5 * (w[0] + w[1])), t);
                        let q = sub(&d[0], &o);
                        0.5 * (q[0] * d[1][1] - q[1] * d[1][0])
                    };
                    let h = (w[1] - w[0]) / 4.0;
                    (0..4).map(|i| gauss16(&f, w[0] + h * i as f64, w[0] + h * (i + 1) as f64)).sum::<f64>()
                })
                .sum::<f64>()
        })
        .sum()
}

fn simple(pts: &[V]) -> bool {
    let n = pts.len();
    let mut idx: Vec<usize> = (0..n).collect();
    let lo = |i: usize| pts[i][0].min(pts[(i + 1) % n][0]);
    let hi = |i: usize| pts[i][0].max(pts[(i + 1) % n][0]);
    idx.sort_by(|a, b| lo(*a).total_cmp(&lo(*b)));
    let cr = |a: &V, b: &V, c: &V| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    for x in 0..n {
        let i = idx[x];
        for y in x + 1..n {
            let j = idx[y];
            if lo(j) > hi(i) {
                break;
            }
            if (i + 1) % n == j || (j + 1) % n == i {
                continue;
            }
            let (a, b, c, d) = (&pts[i], &pts[(i + 1) % n], &pts[j], &pts[(j + 1) % n]);
            if cr(a, b, c) * cr(a, b, d) <= 0.0 && cr(c, d, a) * cr(c, d, b) <= 0.0 {
                return false;
            }
        }
    }
    true
}

/// a random simple closed boundary of size about `r` around `o`
pub fn looped(c: &mut Ctx, r: f64, o: &[f64]) -> Result<Loop, Stop> {
    let k = c.rng.int(0, 10);
    looped_kind(c, k, r, o)
}
pub fn looped_kind(c: &mut Ctx, k: usize, r: f64, o: &[f64]) -> Result<Loop, Stop> {
    let th = if c.rng.bool(0.3) { 0.0 } else { c.rng.range(0.0, 6.3) };
    let (x, y) = (Vector2::new(th.cos(), th.sin()), Vector2::new(-th.sin(), th.cos()));
    let op = p2(o);
    let star = |c: &mut Ctx, n: usize, lo: f64| -> Vec<Point2<f64>> {
        (0..n)
            .map(|i| {
                let a = th + std::f64::consts::TAU * (i as f64 + c.rng.range(-0.3, 0.3)) / n as f64;
                op + Vector2::new(a.cos(), a.sin()) * r * c.rng.range(lo, 1.0)
            })
            .collect()
    };
    let at = |u: f64, v: f64| op + x * u * r + y * v * r;
    let close = |mut v: Vec<Point2<f64>>| {
        v.push(v[0]);
        v
    };
    let norm_k = c.rng.bool(0.5);
    let mut comp: Option<Vec<NurbsCurve2D<f64>>> = None;
    let mut cv: Option<NurbsCurve2D<f64>> = None;
    match k {
        0 => cv = Some(must!(NurbsCurve2D::try_circle(&op, &x, &y, r * c.rng.range(0.5, 1.0)), "circle")),
        1 => cv = Some(must!(NurbsCurve2D::try_ellipse(&op, &(x * r * c.rng.range(0.4, 1.0)), &(y * r * c.rng.range(0.4, 1.0))), "ellipse")),
        2 => {
            let n = c.rng.int(3, 10);
            let s = star(c, n, 0.35);
            cv = Some(NurbsCurve2D::polyline(&close(s), norm_k));
        }
        3 => {
            let (a, b) = (c.rng.range(0.3, 1.0), c.rng.range(0.3, 1.0));
            cv = Some(NurbsCurve2D::polyline(&close(vec![at(-a, -b), at(a, -b), at(a, b), at(-a, b)]), norm_k));
        }
        4 => {
            let n = c.rng.int(5, 10);
            let s = star(c, n, 0.55);
            let p = c.rng.int(2, 4);
            let st = match c.rng.int(0, 2) { 0 => KnotStyle::Centripetal, 1 => KnotStyle::Chordal, _ => KnotStyle::Uniform };
            cv = NurbsCurve2D::try_periodic_interpolate(&s, p, st).ok();
        }
        5 => {
            // rounded rectangle
            let (a, b) = (c.rng.range(0.4, 1.0), c.rng.range(0.4, 1.0));
            let q = c.rng.range(0.1, 0.35);
            let mut v = vec![];
            let cs = [(a - q, b - q), (q - a, b - q), (q - a, q - b), (a - q, q - b)];
            for i in 0..4 {
                let (s, e) = (std::f64::consts::FRAC_PI_2 * i as f64, std::f64::consts::FRAC_PI_2 * (i + 1) as f64);
                let arc = must!(NurbsCurve2D::try_arc(&at(cs[i].0, cs[i].1), &x, &y, q * r, s, e), "arc");
                let n = cs[(i + 1) % 4];
                let e0 = arc.point_at(arc.knots_domain().1);
                let d = [(0.0, q), (-q, 0.0), (0.0, -q), (q, 0.0)][i];
                v.push(arc);
                v.push(NurbsCurve2D::polyline(&[e0, at(n.0 + d.0, n.1 + d.1)], norm_k));
            }
            comp = Some(v);
        }
        6 => {
            let n = c.rng.int(2, 4);
            let mut a: Vec<f64> = (0..n).map(|i| std::f64::consts::TAU * (i as f64 + c.rng.range(-0.3, 0.3)) / n as f64).collect();
            a.push(a[0] + std::f64::consts::TAU);
            let rr = r * c.rng.range(0.5, 1.0);
            let mut v = vec![];
            for w in a.windows(2) {
                v.push(must!(NurbsCurve2D::try_arc(&op, &x, &y, rr, w[0], w[1]), "arc"));
            }
            comp = Some(v);
        }
        7 => {
            let n = c.rng.int(5, 9);
            let s = close(star(c, n, 0.5));
            let p = c.rng.int(2, 4);
            let (a, l) = domain(&mut c.rng);
            let st = *c.rng.pick(&[KS::ClampedUniform, KS::ClampedRandom]);
            let ks = knots(&mut c.rng, p, s.len(), st, a, l);
            let rat = c.rng.bool(0.5);
            let w0 = if rat { c.rng.range(0.6, 1.6) } else { 1.0 };
            let m = s.len();
            let h = s
                .iter()
                .enumerate()
                .map(|(i, q)| {
                    let w = if i == 0 || i == m - 1 { w0 } else if rat { c.rng.range(0.6, 1.6) } else { 1.0 };
                    nalgebra::Point3::new(q.x * w, q.y * w, w)
                })
                .collect();
            cv = NurbsCurve2D::try_new(p, h, ks).ok();
        }
        8 => {
            // lattice polygons: every vertex is level with others
            let sh: &[&[(f64, f64)]] = &[
                &[(0., 0.), (2., 0.), (2., 1.), (1., 1.), (1., 2.), (0., 2.)],
                &[(0., 0.), (3., 0.), (3., 2.), (2., 2.), (2., 1.), (1., 1.), (1., 2.), (0., 2.)],
                &[(0., 0.), (5., 0.), (5., 2.), (4., 2.), (4., 1.), (3., 1.), (3., 2.), (2., 2.), (2., 1.), (1., 1.), (1., 2.), (0., 2.)],
                &[(0., 0.), (1., 1.), (2., 0.), (3., 1.), (4., 0.), (4., 2.), (3., 1.5), (2., 2.), (1., 1.5), (0., 2.)],
                &[(0., 0.), (4., 0.), (4., 4.), (1., 4.), (1., 2.), (2., 2.), (2., 3.), (3., 3.), (3., 1.), (0., 1.)],
                &[(0., 0.), (2., 0.), (3., 1.), (2., 2.), (0., 2.), (-1., 1.)],
            ];
            let s = sh[c.rng.int(0, sh.len() - 1)];
            let m = s.iter().map(|q| q.0.max(q.1)).fold(0.0, f64::max);
            let sft = c.rng.int(0, s.len() - 1);
            let v: Vec<_> = (0..s.len()).map(|i| s[(i + sft) % s.len()]).map(|q| at(q.0 / m * 1.6 - 0.7, q.1 / m * 1.6 - 0.7)).collect();
            cv = Some(NurbsCurve2D::polyline(&close(v), norm_k));
        }
        9 => {
            // unclamped periodic spline
            let n = c.rng.int(5, 9);
            let p = c.rng.int(2, 4);
            let s = star(c, n, 0.5);
            // exact knots: the two ends are the same point up to rounding of the basis only
            let (a, l) = (c.rng.int(0, 8) as f64, *c.rng.pick(&[0.25, 1.0, 2.0]));
            let h = (0..n + p).map(|i| nalgebra::Point3::new(s[i % n].x, s[i % n].y, 1.0)).collect();
            let ks = (0..n + 2 * p + 1).map(|i| a + l * i as f64).collect();
            cv = NurbsCurve2D::try_new(p, h, ks).ok();
        }
        _ => {
            let n = c.rng.int(3, 7);
            let s = star(c, n, 0.6);
            let mut v = vec![];
            for i in 0..n {
                let (a, b) = (s[i], s[(i + 1) % n]);
                if c.rng.bool(0.4) {
                    v.push(NurbsCurve2D::polyline(&[a, b], norm_k));
                } else {
                    let d = (b - a).norm() * c.rng.range(-0.25, 0.25);
                    let nrm = Vector2::new(-(b - a).y, (b - a).x).normalize();
                    let w = c.rng.range(0.6, 1.5);
                    let m = a + (b - a) * 0.5 + nrm * d;
                    let (s0, l) = domain(&mut c.rng);
                    v.push(must!(
                        NurbsCurve2D::try_new(
                            2,
                            vec![nalgebra::Point3::new(a.x, a.y, 1.0), nalgebra::Point3::new(m.x * w, m.y * w, w), nalgebra::Point3::new(b.x, b.y, 1.0)],
                            vec![s0, s0, s0, s0 + l, s0 + l, s0 + l]
                        ),
                        "arc piece"
                    ));
                }
            }
            comp = Some(v);
        }
    }
    let inv = c.rng.bool(0.4);
    let mut lp = if let Some(v) = comp {
        let mut cc = CompoundCurve::new(v);
        if inv {
            cc.invert();
        }
        Loop { rcs: cc.spans().iter().map(RC::of).collect(), cc, cv: None, pts: vec![], sag: 0.0, size: r, kind: k }
    } else if let Some(mut cv) = cv {
        if inv {
            cv.invert();
        }
        if c.rng.bool(0.25) {
            // seam elsewhere: cut into pieces and start from the second one
            let d = cv.knots_domain();
            let t = c.rng.range(d.0 + 0.05 * (d.1 - d.0), d.1 - 0.05 * (d.1 - d.0));
            let (h, tl) = must!(cv.try_split(t), "split");
            let cc = CompoundCurve::new(vec![tl, h]);
            Loop { rcs: cc.spans().iter().map(RC::of).collect(), cc, cv: None, pts: vec![], sag: 0.0, size: r, kind: k }
        } else {
            Loop { rcs: vec![RC::of(&cv)], cc: CompoundCurve::new(vec![cv.clone()]), cv: Some(cv), pts: vec![], sag: 0.0, size: r, kind: k }
        }
    } else {
        return Err(Stop::Skip("not constructible"));
    };
    let (p, s) = polygon(&lp.rcs, 60);
    lp.pts = p;
    lp.sag = s;
    if !simple(&lp.pts) {
        return Err(Stop::Skip("boundary is not simple"));
    }
    c.shape(&[k as u64, inv as u64, lp.cv.is_some() as u64, lp.rcs.len() as u64, lp.rcs[0].p as u64, lp.rcs[0].c.len() as u64]);
    Ok(lp)
}

pub fn options(c: &mut Ctx) -> Option<CurveIntersectionSolverOptions<f64>> {
    match c.rng.int(0, 3) {
        0 | 1 => None,
        2 => Some(CurveIntersectionSolverOptions { minimum_distance: 1e-4, knot_domain_division: 500, max_iters: 1000, step_size_tolerance: 1e-8, cost_tolerance: 1e-10 }),
        _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(c.rng.int(4, 200)).with_minimum_distance(10f64.powf(c.rng.range(-6.0, -4.0)))),
    }
}

fn query(c: &mut Ctx, l: &Loop) -> V {
    let b: (V, V) = l.pts.iter().fold((vec![f64::MAX; 2], vec![f64::MIN; 2]), |(a, b), p| {
        (vec![a[0].min(p[0]), a[1].min(p[1])], vec![b[0].max(p[0]), b[1].max(p[1])])
    });
    let e = 0.15 * l.size;
    let mut q: V = (0..2).map(|i| c.rng.range(b.0[i] - e, b.1[i] + e)).collect();
    match c.rng.int(0, 4) {
        0 => {}
        1 => {
            // level with a vertex, seam or sample of the boundary
            let n = if c.rng.bool(0.5) { 0 } else { c.rng.int(0, l.pts.len() - 1) };
            q[1] = l.pts[n][1];
        }
        2 => {
            // level with a break of a span, almost
            let i = c.rng.int(0, l.rcs.len() - 1);
            let br = l.rcs[i].breaks();
            let t = *c.rng.pick(&br);
            q[1] = l.rcs[i].at(t)[1] + c.rng.sign() * 10f64.powf(c.rng.range(-14.0, -2.0)) * l.size;
        }
        3 => {
            // level with the highest/lowest point
            let f = if c.rng.bool(0.5) { b.1[1] } else { b.0[1] };
            q[1] = f + c.rng.sign() * 10f64.powf(c.rng.range(-9.0, -2.0)) * l.size * c.rng.int(0, 1) as f64;
        }
        _ => {
            // beside the boundary
            let n = c.rng.int(0, l.pts.len() - 1);
            let (p, s) = (&l.pts[n], &l.pts[(n + 1) % l.pts.len()]);
            let d = sub(s, p);
            let u = c.rng.unit();
            let h = c.rng.sign() * 10f64.powf(c.rng.range(-2.7, -0.7)) * l.size / norm(&d);
            q = add(&add(p, &mul(&d, u)), &[-d[1] * h, d[0] * h]);
        }
    }
    q
}

fn ask(c: &mut Ctx, l: &Loop, q: &[f64], o: Option<CurveIntersectionSolverOptions<f64>>) -> Result<bool, Stop> {
    Ok(match &l.cv {
        Some(cv) if c.rng.bool(0.7) => must!(cv.contains(&p2(q), o), "contains (curve)"),
        _ => must!(l.cc.contains(&p2(q), o), "contains (compound curve)"),
    })
}

fn c23_inside(c: &mut Ctx) -> R {
    let r = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * r).collect() };
    let l = looped(c, r, &o)?;
    let margin = 2.0 * l.sag + 2e-4f64.max(1e-3 * r);
    c.describe(format!("kind {} boundary {:?}", l.kind, l.rcs));
    for _ in 0..12 {
        let q = query(c, &l);
        let d = polyd(&q, &l.pts);
        if d < margin {
            c.ev("queries too close to the boundary", 1);
            continue;
        }
        let want = polyin(&q, &l.pts);
        let o = options(c);
        let got = ask(c, &l, &q, o.clone())?;
        chk!(got == want, if want { "inside-denied" } else { "outside-claimed" }, "point {q:?} at distance {d} from the boundary (kind {}): contains = {got}; options {o:?}", l.kind);
        c.ev(if want { "inside queries" } else { "outside queries" }, 1);
    }
    Ok(())
}

fn c23_boundary(c: &mut Ctx) -> R {
    let r = *c.rng.pick(&[0.5, 1.0, 4.0, 30.0]);
    let o: V = if c.rng.bool(0.4) { vec![0.0, 0.0] } else { (0..2).map(|_| c.rng.range(-2.0, 2.0) * r).collect() };
    let l = looped(c, r, &o)?;
    c.describe(format!("kind {} boundary {:?}", l.kind, l.rcs));
    for _ in 0..8 {
        let i = c.rng.int(0, l.rcs.len() - 1);
        let d = l.rcs[i].dom();
        let br = l.rcs[i].breaks();
        let t = match c.rng.int(0, 3) {
            0 => *c.rng.pick(&br),
            1 => d.0,
            _ => c.rng.range(d.0, d.1),
        };
        let q = l.rcs[i].at(t);
        let o = options(c);
        let got = ask(c, &l, &q, o.clone())?;
        chk!(got, "boundary-denied", "boundary point {q:?} (parameter {t}, kind {}) is not contained; options {o:?}", l.kind);
        c.ev("boundary queries", 1);
    }
    Ok(())
}

fn c23_open(c: &mut Ctx) -> R {
    let mut s = spec_in(c, &SpecOpt { dim: 2, pmin: 1, pmax: 4, extra: 5, styles: &ALL_KS, w: None, dom: true, scale: 3.0 });
    let slit = s.pts.len() > 2 && c.rng.bool(0.5);
    if slit {
        // the ends all but meet (exactly so for clamped knots)
        let (g, a) = (10f64.powf(c.rng.range(-6.0, -2.0)), c.rng.range(0.0, 6.28));
        let n = s.pts.len();
        s.pts[n - 1] = vec![s.pts[0][0] + g * a.cos(), s.pts[0][1] + g * a.sin()];
    }
    let cv = s.c2();
    let rc = RC::of(&cv);
    let d = rc.dom();
    let gap = dist(&rc.at(d.0), &rc.at(d.1));
    if gap < if slit { 1e-7 } else { 1e-3 } {
        return Err(Stop::Skip("closed"));
    }
    c.describe(format!("{} gap {gap:e}", s.desc()));
    chk!(!cv.is_closed(), "open-closed", "a curve whose ends are {gap:e} apart is reported closed");
    let u = c.rng.range(d.0, d.1);
    let q = if c.rng.bool(0.5) { rc.at(u) } else { (0..2).map(|_| c.rng.range(-5.0, 5.0)).collect() };
    chk!(cv.contains(&p2(&q), None).is_err(), "open-accepted", "an open curve answers the containment of {q:?}");
    c.ev("open curves", 1);
    Ok(())
}

fn c23_polygon(c: &mut Ctx) -> R {
    let n = c.rng.int(3, 12);
    let lat = c.rng.bool(0.5);
    let (k, r) = (*c.rng.pick(&[2usize, 3, 8]), *c.rng.pick(&[1.0, 1e3, 1e-3]));
    let l = looped_kind(c, k, r, &[0.0, 0.0])?;
    let mut p: Vec<V> = if lat {
        // integer vertices with repeated levels
        let m = l.size;
        l.rcs[0].breaks().iter().map(|t| l.rcs[0].at(*t)).map(|q| q.iter().map(|x| (x / m * 6.0).round()).collect()).collect()
    } else {
        l.rcs[0].breaks().iter().map(|t| l.rcs[0].at(*t)).collect()
    };
    if c.rng.bool(0.6) && p.first() == p.last() {
        p.pop();
    }
    p.dedup();
    if !simple(&{ let mut z = p.clone(); if z.first() == z.last() { z.pop(); } z }) {
        return Err(Stop::Skip("not simple"));
    }
    if c.rng.bool(0.5) {
        p.reverse();
    }
    let _ = n;
    c.describe(format!("polygon {p:?}"));
    c.shape(&[p.len() as u64, lat as u64]);
    let b = PolygonBoundary::new(p.iter().map(|q| p2(q)).collect());
    let sz = p.iter().map(|q| norm(q)).fold(0.0, f64::max);
    for _ in 0..20 {
        let mut q: V = (0..2).map(|_| c.rng.range(-1.2, 1.2) * sz).collect();
        if lat && c.rng.bool(0.6) {
            q = q.iter().map(|x| (x * 2.0).round() / 2.0).collect();
        }
        if c.rng.bool(0.4) {
            q[1] = p[c.rng.int(0, p.len() - 1)][1];
        }
        if polyd(&q, &p) < 1e-9 * sz {
            continue;
        }
        let got = must!(b.contains(&p2(&q), ()), "contains (polygon)");
        let want = polyin(&q, &p);
        chk!(got == want, "polygon", "polygon containment of {q:?} is {got}");
        c.ev("polygon queries", 1);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let _ = (path_ok::<Const<3>>, piece, crossings, area, polya, Poly::of);
    vec![Prop {
        id: "C23",
        rule: "distinct kinds, orientations, seams and shapes of closed boundaries",
        loads: vec![
            Workload { name: "inside", f: c23_inside, quick: 5600, thorough: 60000 },
            Workload { name: "boundary", f: c23_boundary, quick: 2000, thorough: 20000 },
            Workload { name: "open", f: c23_open, quick: 1600, thorough: 8000 },
            Workload { name: "polygon", f: c23_polygon, quick: 8000, thorough: 50000 },
        ],
    }]
}
