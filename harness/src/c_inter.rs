//! C21/C22: curve-curve and surface-curve intersections against crossings
//! found independently by dense sampling and Newton refinement.
use crate::c_comp::piece;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use nalgebra::{Point2, Vector2};

/// a transversal crossing of two planar curves
#[derive(Clone, Debug)]
pub struct X {
    pub ta: f64,
    pub tb: f64,
    pub p: V,
    pub sin: f64,
}

pub struct Poly {
    pub t: Vec<f64>,
    pub p: Vec<V>,
    /// bounding boxes of a binary hierarchy over the segments (heap order)
    bb: Vec<[f64; 4]>,
    n: usize,
}
impl Poly {
    pub fn of(rc: &RC, per: usize) -> Poly {
        let br = rc.breaks();
        let m = if rc.p == 1 && rc.wratio() == 1.0 { 1 } else { per };
        let mut t = vec![];
        for w in br.windows(2) {
            for i in 0..m {
                t.push(w[0] + (w[1] - w[0]) * i as f64 / m as f64);
            }
        }
        t.push(br[br.len() - 1]);
        let p: Vec<V> = t.iter().map(|x| rc.at(*x)).collect();
        let n = (t.len() - 1).next_power_of_two();
        let mut bb = vec![[f64::MAX, f64::MAX, f64::MIN, f64::MIN]; 2 * n];
        for i in 0..t.len() - 1 {
            bb[n + i] = [p[i][0].min(p[i + 1][0]), p[i][1].min(p[i + 1][1]), p[i][0].max(p[i + 1][0]), p[i][1].max(p[i + 1][1])];
        }
        for i in (1..n).rev() {
            let (a, b) = (bb[2 * i], bb[2 * i + 1]);
            bb[i] = [a[0].min(b[0]), a[1].min(b[1]), a[2].max(b[2]), a[3].max(b[3])];
        }
        Poly { t, p, bb, n }
    }
    fn hits(&self, o: &Poly, f: &mut dyn FnMut(usize, usize)) {
        let mut st = vec![(1usize, 1usize)];
        while let Some((i, j)) = st.pop() {
            let (a, b) = (&self.bb[i], &o.bb[j]);
            if a[0] > b[2] || b[0] > a[2] || a[1] > b[3] || b[1] > a[3] {
                continue;
            }
            match (i >= self.n, j >= o.n) {
                (true, true) => f(i - self.n, j - o.n),
                (true, false) => st.extend([(i, 2 * j), (i, 2 * j + 1)]),
                (false, true) => st.extend([(2 * i, j), (2 * i + 1, j)]),
                _ => st.extend([(2 * i, 2 * j), (2 * i, 2 * j + 1), (2 * i + 1, 2 * j), (2 * i + 1, 2 * j + 1)]),
            }
        }
    }
}

fn solve2(a: &[f64], b: &[f64], r: &[f64]) -> Option<(f64, f64)> {
    // a x - b y = r
    let d = -a[0] * b[1] + a[1] * b[0];
    if d == 0.0 {
        return None;
    }
    Some(((-r[0] * b[1] + r[1] * b[0]) / d, (a[0] * r[1] - a[1] * r[0]) / d))
}

/// all crossings the sampled polylines show, refined on the curves
pub fn crossings(ra: &RC, pa: &Poly, rb: &RC, pb: &Poly) -> Vec<X> {
    let (da, db) = (ra.dom(), rb.dom());
    let mut r: Vec<X> = vec![];
    pa.hits(pb, &mut |i, j| {
        let (a, b, c, d) = (&pa.p[i], &pa.p[i + 1], &pb.p[j], &pb.p[j + 1]);
        let Some((x, y)) = solve2(&sub(b, a), &sub(d, c), &sub(c, a)) else { return };
        let e = 0.2;
        if x < -e || x > 1.0 + e || y < -e || y > 1.0 + e {
            return;
        }
        let mut ta = pa.t[i] + (pa.t[i + 1] - pa.t[i]) * x.clamp(0.0, 1.0);
        let mut tb = pb.t[j] + (pb.t[j + 1] - pb.t[j]) * y.clamp(0.0, 1.0);
        let (wa, wb) = (pa.t[i + 1] - pa.t[i], pb.t[j + 1] - pb.t[j]);
        let (sa, sb) = (span_of(&ra.k, ra.p, 0.5 * (pa.t[i] + pa.t[i + 1])), span_of(&rb.k, rb.p, 0.5 * (pb.t[j] + pb.t[j + 1])));
        for _ in 0..40 {
            let (A, B) = (ra.ders_in(sa, ta), rb.ders_in(sb, tb));
            let Some((u, v)) = solve2(&A[1], &B[1], &sub(&B[0], &A[0])) else { return };
            ta = (ta + u.clamp(-wa, wa)).clamp(pa.t[i] - 1.5 * wa, pa.t[i + 1] + 1.5 * wa);
            tb = (tb + v.clamp(-wb, wb)).clamp(pb.t[j] - 1.5 * wb, pb.t[j + 1] + 1.5 * wb);
            if u.abs() < 1e-14 * wa.max(ta.abs()) && v.abs() < 1e-14 * wb.max(tb.abs()) {
                break;
            }
        }
        let (A, B) = (ra.ders_in(sa, ta), rb.ders_in(sb, tb));
        let sc = 1e-9 * (ra.scale() + rb.scale());
        let ok = |t: f64, lo: f64, hi: f64, w: f64| t >= lo - 1e-9 * w && t <= hi + 1e-9 * w;
        if dist(&A[0], &B[0]) > sc || !ok(ta, pa.t[i], pa.t[i + 1], wa) || !ok(tb, pb.t[j], pb.t[j + 1], wb) {
            return;
        }
        let sin = (A[1][0] * B[1][1] - A[1][1] * B[1][0]).abs() / (norm(&A[1]) * norm(&B[1])).max(1e-300);
        if r.iter().all(|x| (x.ta - ta).abs() > 1e-7 * (da.1 - da.0) || (x.tb - tb).abs() > 1e-7 * (db.1 - db.0)) {
            r.push(X { ta, tb, p: A[0].clone(), sin });
        }
    });
    r
}

/// the crossing is clear of ends, kinks, other crossings and slow parametrisation
fn separated(x: &X, all: &[X], ra: &RC, rb: &RC, sep: f64) -> bool {
    let clear = |rc: &RC, t: f64| {
        let d = rc.dom();
        let l = d.1 - d.0;
        let br = rc.breaks();
        let kink = br.iter().any(|b| {
            let m = rc.k.iter().filter(|k| *k == b).count();
            m >= rc.p && (t - b).abs() < sep * l
        });
        let sp = norm(&rc.ders(t)[1]) * l;
        (t - d.0) > sep * l && (d.1 - t) > sep * l && !kink && sp > 0.02 * rc.length(d.0, d.1)
    };
    let (la, lb) = (ra.dom().1 - ra.dom().0, rb.dom().1 - rb.dom().0);
    x.sin > 0.15
        && clear(ra, x.ta)
        && clear(rb, x.tb)
        && all.iter().all(|y| (y.ta == x.ta && y.tb == x.tb) || ((y.ta - x.ta).abs() > sep * la && (y.tb - x.tb).abs() > sep * lb && dist(&x.p, &y.p) > 1e-3))
}

fn report(it: &[(V, f64, V, f64)], ra: &RC, rb: &RC, key: &str) -> R {
    for (pa, ta, pb, tb) in it {
        let (da, db) = (ra.dom(), rb.dom());
        chk!(*ta >= da.0 && *ta <= da.1 && *tb >= db.0 && *tb <= db.1, format!("{key}-domain"), "parameters {ta},{tb} outside {da:?} {db:?}");
        let (qa, qb) = (ra.at(*ta), rb.at(*tb));
        let sc = ra.scale().max(rb.scale()) * ra.wratio().max(rb.wratio());
        chk!(dist(pa, &qa) <= 1e-9 * sc && dist(pb, &qb) <= 1e-9 * sc, format!("{key}-point"), "points {pa:?} {pb:?} are not the curves' points {qa:?} {qb:?} at {ta},{tb}");
        chk!(dist(pa, pb) <= 1.0001e-5, format!("{key}-apart"), "points {pa:?} {pb:?} do not coincide");
    }
    Ok(())
}

fn each_once(c: &mut Ctx, xs: &[X], it: &[(V, f64, V, f64)], ra: &RC, rb: &RC, key: &str) -> R {
    let (la, lb) = (ra.dom().1 - ra.dom().0, rb.dom().1 - rb.dom().0);
    let mut sep = 0;
    for x in xs {
        if !separated(x, xs, ra, rb, 0.01) {
            continue;
        }
        sep += 1;
        let n = it.iter().filter(|i| (i.1 - x.ta).abs() < 0.004 * la && (i.3 - x.tb).abs() < 0.004 * lb).count();
        chk!(n >= 1, format!("{key}-missed"), "crossing at {:?} (parameters {} {}, sine {}) is not among {:?}; all crossings {:?}", x.p, x.ta, x.tb, x.sin, it.iter().map(|i| (i.1, i.3)).collect::<Vec<_>>(), xs.iter().map(|x| (x.ta, x.tb)).collect::<Vec<_>>());
        chk!(n <= 1, format!("{key}-twice"), "crossing at {:?} (parameters {} {}) is reported {n} times: {:?}", x.p, x.ta, x.tb, it.iter().map(|i| (i.1, i.3)).collect::<Vec<_>>());
        let i = it.iter().find(|i| (i.1 - x.ta).abs() < 0.004 * la && (i.3 - x.tb).abs() < 0.004 * lb).unwrap();
        chk!(dist(&i.0, &x.p) <= 2e-4, format!("{key}-inaccurate"), "crossing at {:?} reported at {:?}", x.p, i.0);
        c.err("crossing position", dist(&i.0, &x.p));
    }
    c.ev("well-separated crossings", sep as u64);
    c.ev("reported intersections", it.len() as u64);
    Ok(())
}

pub fn listed<D>(v: &[CurveCurveIntersection<nalgebra::OPoint<f64, nalgebra::DimNameDiff<D, nalgebra::U1>>, f64>]) -> Vec<(V, f64, V, f64)>
where
    D: nalgebra::DimName + nalgebra::DimNameSub<nalgebra::U1>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<nalgebra::DimNameDiff<D, nalgebra::U1>>,
{
    v.iter().map(|i| (pv(&i.a().0), i.a().1, pv(&i.b().0), i.b().1)).collect()
}

/// a planar curve of one of many kinds around the origin, size about `r`
pub fn planar(c: &mut Ctx, r: f64) -> Result<NurbsCurve2D<f64>, Stop> {
    let o = Point2::new(c.rng.range(-0.5, 0.5) * r, c.rng.range(-0.5, 0.5) * r);
    let th = c.rng.range(0.0, 6.3);
    let (x, y) = (Vector2::new(th.cos(), th.sin()), Vector2::new(-th.sin(), th.cos()));
    let k = c.rng.int(0, 9);
    let cv = match k {
        0 => must!(NurbsCurve2D::try_circle(&o, &x, &y, r * c.rng.range(0.4, 1.0)), "circle"),
        1 => must!(NurbsCurve2D::try_ellipse(&o, &(x * r * c.rng.range(0.4, 1.0)), &(y * r * c.rng.range(0.4, 1.0))), "ellipse"),
        2 => {
            let a = c.rng.range(0.0, 3.0);
            let e = a + c.rng.range(1.0, 6.0);
            must!(NurbsCurve2D::try_arc(&o, &x, &y, r * c.rng.range(0.5, 1.0), a, e), "arc")
        }
        3 => {
            let (a, b) = (o - x * r * c.rng.range(0.6, 1.5), o + x * r * c.rng.range(0.6, 1.5));
            NurbsCurve2D::polyline(&[a, b], c.rng.bool(0.5))
        }
        4 => {
            let n = c.rng.int(3, 7);
            let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.range(-r, r), c.rng.range(-r, r))).collect();
            if pts.windows(2).any(|w| (w[0] - w[1]).norm() < 0.1 * r) {
                return Err(Stop::Skip("short leg"));
            }
            NurbsCurve2D::polyline(&pts, c.rng.bool(0.5))
        }
        5 => {
            let n = c.rng.int(4, 8);
            let pts: Vec<Point2<f64>> = (0..n).map(|_| Point2::new(c.rng.range(-r, r), c.rng.range(-r, r))).collect();
            if pts.windows(2).any(|w| (w[0] - w[1]).norm() < 0.2 * r) {
                return Err(Stop::Skip("short leg"));
            }
            must!(NurbsCurve2D::try_interpolate(&pts, 3), "interpolate")
        }
        _ => {
            let w = Some(*c.rng.pick(&[W::One, W::Mild]));
            let s = spec(&mut c.rng, &SpecOpt { dim: 2, pmin: 2, pmax: 5, extra: 6, styles: &ALL_KS, w, dom: true, scale: r });
            let sg = s.sig();
            c.shape(&[sg]);
            s.c2()
        }
    };
    c.shape(&[k as u64, cv.degree() as u64, cv.control_points().len() as u64]);
    Ok(cv)
}

fn c21_plane(c: &mut Ctx) -> R {
    let r = *c.rng.pick(&[1.0, 5.0, 20.0]);
    let (a, b) = (planar(c, r)?, planar(c, r)?);
    let (ra, rb) = (RC::of(&a), RC::of(&b));
    c.describe(format!("a={ra:?} b={rb:?}"));
    let xs = crossings(&ra, &Poly::of(&ra, 120), &rb, &Poly::of(&rb, 120));
    c.ev("crossings seen by the oracle", xs.len() as u64);
    for _ in 0..2 {
        let it = must!(a.find_intersections(&b, None), "find_intersections");
        let it = listed::<nalgebra::U3>(&it);
        report(&it, &ra, &rb, "cc")?;
        each_once(c, &xs, &it, &ra, &rb, "cc")?;
    }
    let it = must!(b.find_intersections(&a, None), "find_intersections");
    let it: Vec<_> = listed::<nalgebra::U3>(&it).into_iter().map(|i| (i.2, i.3, i.0, i.1)).collect();
    report(&it, &ra, &rb, "cc-swapped")?;
    each_once(c, &xs, &it, &ra, &rb, "cc-swapped")?;
    Ok(())
}


fn c21_space(c: &mut Ctx) -> R {
    let r = *c.rng.pick(&[1.0, 5.0, 20.0]);
    let o = |w| SpecOpt { dim: 3, pmin: 1, pmax: 5, extra: 6, styles: &ALL_KS, w: Some(w), dom: true, scale: r };
    let w = *c.rng.pick(&[W::One, W::Mild]);
    let sa = spec_in(c, &o(w));
    let mut sb = spec_in(c, &o(w));
    let (a, b0) = (sa.c3(), sb.c3());
    let (ra, rb0) = (RC::of(&a), RC::of(&b0));
    let (da, db) = (ra.dom(), rb0.dom());
    let (ta, tb) = (c.rng.range(da.0, da.1), c.rng.range(db.0, db.1));
    let d = sub(&ra.at(ta), &rb0.at(tb));
    for p in sb.pts.iter_mut() {
        *p = add(p, &d);
    }
    let b = sb.c3();
    let rb = RC::of(&b);
    c.describe(format!("a={ra:?} b={rb:?} meeting at {ta} {tb}"));
    let (A, B) = (ra.ders(ta), rb.ders(tb));
    let sin = norm(&cross(&unit(&A[1]), &unit(&B[1])));
    let x = X { ta, tb, p: A[0].clone(), sin };
    let xs = vec![x];
    for sw in 0..2 {
        let it: Vec<_> = if sw == 0 {
            listed::<nalgebra::U4>(&must!(a.find_intersections(&b, None), "find_intersections"))
        } else {
            let it = must!(b.find_intersections(&a, None), "find_intersections");
            listed::<nalgebra::U4>(&it).into_iter().map(|i| (i.2, i.3, i.0, i.1)).collect()
        };
        report(&it, &ra, &rb, "space")?;
        each_once(c, &xs, &it, &ra, &rb, "space")?;
    }
    Ok(())
}

fn c21_apart(c: &mut Ctx) -> R {
    let r = *c.rng.pick(&[1.0, 5.0, 20.0]);
    let (a, b) = (planar(c, r)?, planar(c, r)?);
    let (ra, rb0) = (RC::of(&a), RC::of(&b));
    // push b away until the curves are a small gap apart
    let (pa, pb) = (Poly::of(&ra, 60), Poly::of(&rb0, 60));
    let dir = { let t = c.rng.range(0.0, 6.3); vec![t.cos(), t.sin()] };
    let hi = pa.p.iter().map(|p| dot(p, &dir)).fold(f64::MIN, f64::max);
    let lo = pb.p.iter().map(|p| dot(p, &dir)).fold(f64::MAX, f64::min);
    let gap = r * 10f64.powf(c.rng.range(-2.5, 0.0));
    let m = mul(&dir, hi - lo + gap);
    let b = b.transformed(&nalgebra::Translation2::new(m[0], m[1]).into());
    let rb = RC::of(&b);
    c.describe(format!("a={ra:?} b={rb:?} gap {gap}"));
    for (n, it) in [must!(a.find_intersections(&b, None), "find_intersections").len(), must!(b.find_intersections(&a, None), "find_intersections").len()].iter().enumerate() {
        chk!(*it == 0, "apart", "{it} intersections of curves {gap} apart (order {n})");
    }
    c.ev("pairs of separate curves", 1);
    Ok(())
}

type It = (V, f64, RC, V, f64, RC);
fn clist(v: &[CompoundCurveIntersection<f64, nalgebra::U3>]) -> Vec<It> {
    v.iter().map(|i| (pv(&i.a().1), i.a().2, RC::of(i.a_curve()), pv(&i.b().1), i.b().2, RC::of(i.b_curve()))).collect()
}
fn same_rc(a: &RC, b: &RC) -> bool {
    a.k == b.k && a.c == b.c
}

/// a chain of spans against a curve (flat = one span) or another chain
fn c21_compound(c: &mut Ctx) -> R {
    let sc = 10.0;
    let mk = |c: &mut Ctx, closed: bool| -> CompoundCurve<f64, nalgebra::U3> {
        let n = c.rng.int(if closed { 3 } else { 2 }, 5);
        let mut vs: Vec<V> = vec![];
        while vs.len() < n + 1 {
            let q: V = (0..2).map(|_| c.rng.range(-1.0, 1.0) * sc).collect();
            if vs.iter().all(|p| dist(p, &q) > 0.2 * sc) {
                vs.push(q);
            }
        }
        if closed {
            vs[n] = vs[0].clone();
        }
        let straight = c.rng.bool(0.3);
        CompoundCurve::new((0..n).map(|i| piece(c, &vs[i].clone(), &vs[i + 1].clone(), straight).c2()).collect())
    };
    let ca = c.rng.bool(0.6);
    let a = mk(c, ca);
    let other = c.rng.bool(0.5);
    let cb = c.rng.bool(0.6);
    let b = if other { mk(c, cb) } else { CompoundCurve::new(vec![planar(c, sc)?]) };
    let (sa, sb): (Vec<RC>, Vec<RC>) = (a.spans().iter().map(RC::of).collect(), b.spans().iter().map(RC::of).collect());
    c.describe(format!("a={sa:?} b={sb:?}"));
    c.shape(&[sa.len() as u64, sb.len() as u64, sa[0].p as u64, sb[0].p as u64]);
    let it = if other { must!(a.find_intersections(&b, None), "find_intersections") } else { must!(a.find_intersections(&b.spans()[0], None), "find_intersections") };
    let it = clist(&it);
    for i in &it {
        chk!(sa.iter().any(|s| same_rc(s, &i.2)) && sb.iter().any(|s| same_rc(s, &i.5)), "compound-span", "reported curve is not a span of the operand");
        report(&[(i.0.clone(), i.1, i.3.clone(), i.4)], &i.2, &i.5, "compound")?;
    }
    let pa: Vec<Poly> = sa.iter().map(|s| Poly::of(s, 120)).collect();
    let pb: Vec<Poly> = sb.iter().map(|s| Poly::of(s, 120)).collect();
    for i in 0..sa.len() {
        for j in 0..sb.len() {
            let xs = crossings(&sa[i], &pa[i], &sb[j], &pb[j]);
            let l: Vec<_> = it.iter().filter(|x| same_rc(&sa[i], &x.2) && same_rc(&sb[j], &x.5)).map(|x| (x.0.clone(), x.1, x.3.clone(), x.4)).collect();
            each_once(c, &xs, &l, &sa[i], &sb[j], "compound")?;
        }
    }
    Ok(())
}

/// a straight line crossing a chain exactly at a joint between two spans
fn c21_joint(c: &mut Ctx) -> R {
    let sc = *c.rng.pick(&[1.0, 10.0, 50.0]);
    let th = c.rng.range(0.0, 6.3);
    let (x, y) = (vec![th.cos() * sc, th.sin() * sc], vec![-th.sin() * sc, th.cos() * sc]);
    let j: V = (0..2).map(|_| c.rng.range(-1.0, 1.0) * sc).collect();
    let at = |u: f64, v: f64| add(&j, &add(&mul(&x, u), &mul(&y, v)));
    // the chain comes from below the line (v < 0) and leaves above it
    let (l, h) = (at(c.rng.range(-0.6, 0.6), -1.0), at(c.rng.range(-0.6, 0.6), 1.0));
    let bend = c.rng.bool(0.6);
    let leg = |c: &mut Ctx, p: &V, q: &V| -> Spec {
        if !bend {
            return piece(c, p, q, true);
        }
        let deg = c.rng.int(2, 4);
        let (o, len) = domain(&mut c.rng);
        let k = knots(&mut c.rng, deg, deg + 1, KS::Bezier, o, len);
        let mut pts = vec![];
        for i in 0..=deg {
            let mut z = lerp(p, q, i as f64 / deg as f64);
            if i > 0 && i < deg {
                let e = c.rng.range(-0.2, 0.2);
                z = add(&z, &mul(&x, e));
            }
            pts.push(z);
        }
        let w = (0..=deg).map(|_| c.rng.range(0.6, 1.6)).collect();
        Spec { p: deg, knots: k, pts, w, style: KS::Bezier, rational: true }
    };
    let (s1, s2) = (leg(c, &l, &j), leg(c, &j, &h));
    let a = CompoundCurve::new(vec![s1.c2(), s2.c2()]);
    let (e0, e1) = (at(-1.0 - c.rng.unit(), 0.0), at(1.0 + c.rng.unit(), 0.0));
    let line = piece(c, &e0, &e1, true).c2();
    let rl = RC::of(&line);
    let both = c.rng.int(0, 2);
    c.describe(format!("chain {:?} {:?} line {:?} mode {both}", RC::of(&a.spans()[0]), RC::of(&a.spans()[1]), rl));
    let it = match both {
        0 => clist(&must!(a.find_intersections(&line, None), "find_intersections")),
        1 => {
            let b = CompoundCurve::new(vec![line.clone()]);
            clist(&must!(b.find_intersections(&a, None), "find_intersections"))
        }
        _ => {
            // the joint of the other chain lies at the same place
            let b = CompoundCurve::new(vec![piece(c, &e0, &j, true).c2(), piece(c, &j, &e1, true).c2()]);
            clist(&must!(a.find_intersections(&b, None), "find_intersections"))
        }
    };
    let near: Vec<_> = it.iter().filter(|i| dist(&i.0, &j) < 1e-3 * sc).collect();
    chk!(!near.is_empty(), "joint-missed", "the crossing at the joint {j:?} is not reported: {:?}", it.iter().map(|i| (&i.0, i.1, i.4)).collect::<Vec<_>>());
    chk!(near.len() == 1, "joint-twice", "the crossing at the joint {j:?} is reported {} times: {:?}", near.len(), it.iter().map(|i| (&i.0, i.1, i.4)).collect::<Vec<_>>());
    c.ev("joint crossings", 1);
    c.shape(&[7, both as u64, bend as u64]);
    Ok(())
}


// ------------------------------------------------------------ surface x curve

struct K3 {
    t: f64,
    u: f64,
    v: f64,
    p: V,
}
type S3 = NurbsSurface3D<f64>;
fn slisted(v: &[SurfaceCurveIntersection<nalgebra::Point3<f64>, f64>]) -> Vec<(V, f64, f64, V, f64)> {
    v.iter().map(|i| (pv(&i.a().0), i.a().1 .0, i.a().1 .1, pv(&i.b().0), i.b().1)).collect()
}

/// report sanity + every known crossing (if clear) reported exactly once
fn sc_check(c: &mut Ctx, s: &S3, cv: &NurbsCurve3D<f64>, known: &[K3]) -> R {
    let (rs, rc) = (RS::of(s), RC::of(cv));
    let (du, dv) = rs.dom();
    let dt = rc.dom();
    for _ in 0..2 {
        let it = slisted(&must!(s.find_intersections(cv, None), "find_intersections"));
        let sc = (rs.scale() + rc.scale()) * rs.wratio().max(rc.wratio());
        for (p, u, v, q, t) in &it {
            chk!(*u >= du.0 && *u <= du.1 && *v >= dv.0 && *v <= dv.1 && *t >= dt.0 && *t <= dt.1, "sc-domain", "parameters {u},{v} / {t} outside {du:?} {dv:?} {dt:?}");
            let (a, b) = (rs.at(*u, *v), rc.at(*t));
            chk!(dist(&a, p) <= 1e-9 * sc && dist(&b, q) <= 1e-9 * sc, "sc-point", "points {p:?} {q:?} are not {a:?} {b:?}");
            chk!(dist(p, q) <= 1.0001e-5, "sc-apart", "points {p:?} {q:?} do not coincide");
        }
        c.ev("reported intersections", it.len() as u64);
        let (lu, lv, lt) = (du.1 - du.0, dv.1 - dv.0, dt.1 - dt.0);
        let inside = |x: f64, d: (f64, f64)| x - d.0 > 0.01 * (d.1 - d.0) && d.1 - x > 0.01 * (d.1 - d.0);
        let kink = |x: f64, k: &[f64], p: usize, l: f64| k.iter().any(|b| (b - x).abs() < 0.01 * l && k.iter().filter(|y| *y == b).count() >= p);
        for x in known {
            let (_, su, sv) = rs.ders(x.u, x.v);
            let ct = &rc.ders(x.t)[1];
            let n = cross(&su, &sv);
            let clear = norm(&n) > 0.2 * norm(&su) * norm(&sv)
                && dot(&n, ct).abs() > 0.2 * norm(&n) * norm(ct)
                && norm(ct) * lt > 0.03 * rc.length(dt.0, dt.1)
                && norm(&su) * lu > 0.05 * rs.scale()
                && norm(&sv) * lv > 0.05 * rs.scale()
                && inside(x.u, du)
                && inside(x.v, dv)
                && inside(x.t, dt)
                && !kink(x.u, &rs.ku, rs.p, lu)
                && !kink(x.v, &rs.kv, rs.q, lv)
                && !kink(x.t, &rc.k, rc.p, lt)
                && known.iter().all(|y| y.t == x.t || (y.t - x.t).abs() > 0.01 * lt);
            if !clear {
                continue;
            }
            c.ev("well-separated crossings", 1);
            let hit: Vec<_> = it.iter().filter(|i| (i.4 - x.t).abs() < 0.004 * lt && (i.1 - x.u).abs() < 0.004 * lu && (i.2 - x.v).abs() < 0.004 * lv).collect();
            if hit.is_empty() && it.iter().any(|i| (i.4 - x.t).abs() < 0.0015 * lt) {
                c.ev("crossings shadowed by another one nearby", 1);
                continue;
            }
            chk!(!hit.is_empty(), "sc-missed", "crossing at {:?} (surface {},{} curve {}) is not among {:?}", x.p, x.u, x.v, x.t, it.iter().map(|i| (i.1, i.2, i.4)).collect::<Vec<_>>());
            // another real crossing may be as near as that, but not at the same place
            let same = hit.iter().enumerate().any(|(i, a)| hit[..i].iter().any(|b| dist(&a.0, &b.0) < 2e-4));
            chk!(!same, "sc-twice", "crossing at {:?} (surface {},{} curve {}) is reported {} times: {:?}", x.p, x.u, x.v, x.t, hit.len(), hit);
            let near = hit.iter().map(|i| dist(&i.0, &x.p)).fold(f64::INFINITY, f64::min);
            chk!(near <= 2e-4, "sc-inaccurate", "crossing at {:?} reported at {:?}", x.p, hit);
            c.err("crossing position", near);
        }
    }
    Ok(())
}

fn c22_surface(c: &mut Ctx) -> Result<S3, Stop> {
    let k = c.rng.int(0, 5);
    crate::c_mesh::surf_unit(c, k)
}

fn c22_known(c: &mut Ctx) -> R {
    let s = c22_surface(c)?;
    let rs = RS::of(&s);
    let (du, dv) = rs.dom();
    let n = c.rng.int(1, 4);
    let mut uv: Vec<(f64, f64)> = (0..n).map(|_| (c.rng.range(du.0, du.1), c.rng.range(dv.0, dv.1))).collect();
    uv.dedup();
    let ps: Vec<V> = uv.iter().map(|p| rs.at(p.0, p.1)).collect();
    let size = rs.scale();
    let sdesc = c.desc.clone();
    let mut known = vec![];
    let cv = if n == 1 || c.rng.bool(0.5) {
        // any curve moved through one point of the surface
        let mut sp = spec(&mut c.rng, &SpecOpt { dim: 3, pmin: 1, pmax: 4, extra: 5, styles: &ALL_KS, w: Some(W::Mild), dom: true, scale: size });
        let rc = RC::of(&sp.c3());
        let d = rc.dom();
        let t = c.rng.range(d.0, d.1);
        let m = sub(&ps[0], &rc.at(t));
        for p in sp.pts.iter_mut() {
            *p = add(p, &m);
        }
        known.push(K3 { t, u: uv[0].0, v: uv[0].1, p: ps[0].clone() });
        sp.c3()
    } else if n == 2 {
        // a segment through two points of the surface
        if dist(&ps[0], &ps[1]) < 0.05 * size {
            return Err(Stop::Skip("points coincide"));
        }
        let (lo, hi) = (-c.rng.range(0.1, 1.0), 1.0 + c.rng.range(0.1, 1.0));
        let (o, l) = domain(&mut c.rng);
        for i in 0..2 {
            known.push(K3 { t: o + l * (i as f64 - lo) / (hi - lo), u: uv[i].0, v: uv[i].1, p: ps[i].clone() });
        }
        let (a, b) = (lerp(&ps[0], &ps[1], lo), lerp(&ps[0], &ps[1], hi));
        must!(NurbsCurve3D::try_new(1, vec![nalgebra::Point4::new(a[0], a[1], a[2], 1.0), nalgebra::Point4::new(b[0], b[1], b[2], 1.0)], vec![o, o, o + l, o + l]), "segment")
    } else {
        // stitches through the surface: above, through, below, through, ...
        let mut pts = vec![];
        let mut marks = vec![];
        for i in 0..n {
            let (_, su, sv) = rs.ders(uv[i].0, uv[i].1);
            let nn = cross(&su, &sv);
            if norm(&nn) < 1e-3 * norm(&su) * norm(&sv) {
                return Err(Stop::Skip("degenerate normal"));
            }
            let nn = unit(&nn);
            let h = size * c.rng.range(0.1, 0.4) * if i % 2 == 0 { 1.0 } else { -1.0 };
            pts.push(add(&ps[i], &mul(&nn, h)));
            marks.push(pts.len());
            pts.push(ps[i].clone());
            pts.push(sub(&ps[i], &mul(&nn, h)));
        }
        let q: Vec<_> = pts.iter().map(|p| p3(p)).collect();
        let cv = match NurbsCurve3D::try_interpolate(&q, 3) {
            Ok(x) => x,
            Err(_) => return Err(Stop::Skip("interpolation")),
        };
        let rc = RC::of(&cv);
        // locate the marks on the curve by refining the nearest sample
        for (i, m) in marks.iter().enumerate() {
            let ts = rc.params(60);
            let mut t = *ts.iter().min_by(|a, b| dist(&rc.at(**a), &pts[*m]).total_cmp(&dist(&rc.at(**b), &pts[*m]))).unwrap();
            for _ in 0..30 {
                let d = rc.ders(t);
                t += dot(&sub(&pts[*m], &d[0]), &d[1]) / dot(&d[1], &d[1]);
                t = t.clamp(rc.dom().0, rc.dom().1);
            }
            if dist(&rc.at(t), &pts[*m]) < 1e-9 * size {
                known.push(K3 { t, u: uv[i].0, v: uv[i].1, p: ps[i].clone() });
            }
        }
        cv
    };
    c.describe(format!("{sdesc} curve {:?} known {:?}", RC::of(&cv), known.iter().map(|k| (k.t, k.u, k.v)).collect::<Vec<_>>()));
    c.shape(&[cv.degree() as u64, cv.control_points().len() as u64, known.len() as u64, s.u_degree() as u64, s.v_degree() as u64]);
    sc_check(c, &s, &cv, &known)
}

fn c22_sphere(c: &mut Ctx) -> R {
    // lines and circles against a sphere whose crossings are known in closed form
    let (x, _, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| c.rng.range(-3.0, 3.0)).collect();
    let r = c.rng.range(0.5, 8.0);
    let s = must!(NurbsSurface3D::try_sphere(&p3(&o), &v3(&z), &v3(&x), r), "sphere");
    let rs = RS::of(&s);
    let special = c.rng.int(0, 3);
    let d: V = match special {
        0 => x.clone(),
        1 => unit(&add(&x, &z)),
        _ => unit(&(0..3).map(|_| c.rng.range(-1.0, 1.0)).collect::<V>()),
    };
    let side = { let y = cross(&d, &frame3(&mut c.rng).0); if norm(&y) < 1e-3 { return Err(Stop::Skip("parallel")) } else { unit(&y) } };
    let off = if special < 2 { 0.0 } else { r * c.rng.range(0.0, 1.4) };
    if (off - r).abs() < 0.05 * r {
        return Err(Stop::Skip("tangent"));
    }
    let m = add(&o, &mul(&side, off));
    let (e0, e1) = (-r * c.rng.range(1.2, 3.0), r * c.rng.range(1.2, 3.0));
    let (a, b) = (add(&m, &mul(&d, e0)), add(&m, &mul(&d, e1)));
    let line = NurbsCurve3D::polyline(&[p3(&a), p3(&b)], false);
    let rl = RC::of(&line);
    c.describe(format!("sphere o={o:?} r={r} x={x:?} z={z:?} line {a:?} {b:?}"));
    c.shape(&[special as u64, (off > r) as u64, 3]);
    for _ in 0..2 {
        let it = slisted(&must!(s.find_intersections(&line, None), "find_intersections"));
        let want: Vec<V> = if off < r {
            let h = (r * r - off * off).sqrt();
            vec![add(&m, &mul(&d, -h)), add(&m, &mul(&d, h))]
        } else {
            vec![]
        };
        for (p, u, v, q, t) in &it {
            chk!(dist(p, q) <= 1.0001e-5 && dist(&rs.at(*u, *v), p) < 1e-8 * r && dist(&rl.at(*t), q) < 1e-8 * (r + norm(&o)), "sc-point", "report {p:?} {q:?} at {u},{v} / {t}");
        }
        for w in &want {
            let n = it.iter().filter(|i| dist(&i.3, w) < 1e-3 * r).count();
            chk!(n == 1, if n == 0 { "sc-missed" } else { "sc-twice" }, "the line meets the sphere at {w:?}, reported {n} times: {:?}", it.iter().map(|i| (&i.0, i.1, i.2, i.4)).collect::<Vec<_>>());
        }
        chk!(it.len() == want.len(), "sc-extra", "{} intersections instead of {}", it.len(), want.len());
        c.ev("sphere crossings", it.len() as u64);
    }
    Ok(())
}

/// a zigzag through a flat patch: many crossings, each known in closed form
fn c22_zigzag(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let size = *c.rng.pick(&[1.0, 5.0, 40.0]);
    let o: V = (0..3).map(|_| c.rng.range(-1.0, 1.0) * size).collect();
    let at = |a: f64, b: f64, h: f64| -> V { (0..3).map(|k| o[k] + x[k] * a + y[k] * b + z[k] * h).collect() };
    // a flat patch over [0,size]^2
    let mut axis = |c: &mut Ctx| {
        let p = c.rng.int(1, 3);
        let n = p + 1 + c.rng.int(0, 4);
        let (a, l) = domain(&mut c.rng);
        let k = knots(&mut c.rng, p, n, if n == p + 1 { KS::Bezier } else { KS::ClampedUniform }, a, l);
        let mut xs: Vec<f64> = (0..n).map(|i| i as f64 / (n - 1) as f64 * size).collect();
        for i in 1..n - 1 {
            xs[i] += c.rng.range(-0.3, 0.3) * size / (n - 1) as f64;
        }
        (p, k, xs)
    };
    let (p, ku, us) = axis(c);
    let (q, kv, vs) = axis(c);
    let net: Vec<Vec<nalgebra::Point4<f64>>> = us.iter().map(|a| vs.iter().map(|b| { let w = at(*a, *b, 0.0); nalgebra::Point4::new(w[0], w[1], w[2], 1.0) }).collect()).collect();
    let s = S3::new(p, q, ku, kv, net);
    // vertices alternate between the two sides
    let n = c.rng.int(3, 24);
    let jitter = c.rng.range(0.05, 0.35);
    let row = c.rng.range(0.2, 0.8) * size;
    let vx: Vec<(f64, f64, f64)> = (0..=n)
        .map(|i| {
            let a = size * (0.1 + 0.8 * (i as f64 + 0.5 + c.rng.range(-0.5, 0.5) * jitter) / (n + 1) as f64);
            let b = row + c.rng.range(-0.1, 0.1) * size;
            let h = size * c.rng.range(0.1, 0.4) * if i % 2 == 0 { 1.0 } else { -1.0 };
            (a, b, h)
        })
        .collect();
    let pts: Vec<nalgebra::Point3<f64>> = vx.iter().map(|w| p3(&at(w.0, w.1, w.2))).collect();
    let cv = NurbsCurve3D::polyline(&pts, c.rng.bool(0.5));
    let want: Vec<V> = vx.windows(2).map(|w| {
        let f = w[0].2 / (w[0].2 - w[1].2);
        at(w[0].0 + (w[1].0 - w[0].0) * f, w[0].1 + (w[1].1 - w[0].1) * f, 0.0)
    }).collect();
    let (rs, rc) = (RS::of(&s), RC::of(&cv));
    c.describe(format!("flat {rs:?} zigzag {rc:?}"));
    c.shape(&[p as u64, q as u64, us.len() as u64, vs.len() as u64, n as u64]);
    let it = slisted(&must!(s.find_intersections(&cv, None), "find_intersections"));
    for (p, u, v, q, t) in &it {
        chk!(dist(p, q) <= 1.0001e-5 && dist(&rs.at(*u, *v), p) < 1e-9 * (size + rs.scale()) && dist(&rc.at(*t), q) < 1e-9 * (size + rc.scale()), "sc-point", "report {p:?} {q:?} at {u},{v} / {t}");
    }
    for w in &want {
        let k = it.iter().filter(|i| dist(&i.3, w) < 1e-3 * size).count();
        chk!(k == 1, if k == 0 { "sc-missed" } else { "sc-twice" }, "the zigzag of {n} segments crosses at {w:?}, reported {k} times: {:?}", it.iter().map(|i| (&i.0, i.4)).collect::<Vec<_>>());
    }
    chk!(it.len() == want.len(), "sc-extra", "{} intersections instead of {}", it.len(), want.len());
    c.ev("zigzag crossings", it.len() as u64);
    Ok(())
}

fn c22_apart(c: &mut Ctx) -> R {
    let s = c22_surface(c)?;
    let rs = RS::of(&s);
    let size = rs.scale();
    let sd = c.desc.clone();
    let sp = spec(&mut c.rng, &SpecOpt { dim: 3, pmin: 1, pmax: 4, extra: 5, styles: &ALL_KS, w: Some(W::Mild), dom: true, scale: size });
    let cv = sp.c3();
    let rc = RC::of(&cv);
    let d = frame3(&mut c.rng).0;
    // hulls separated along d (weights are positive)
    let hi = rs.c.iter().flatten().map(|p| dot(&p[..3], &d) / p[3]).fold(f64::MIN, f64::max);
    let lo = rc.euclid().iter().map(|p| dot(p, &d)).fold(f64::MAX, f64::min);
    let gap = size * 10f64.powf(c.rng.range(-2.5, 0.0));
    let m = mul(&d, hi - lo + gap);
    let cv = cv.transformed(&nalgebra::Translation3::new(m[0], m[1], m[2]).into());
    c.describe(format!("{sd} curve {:?} gap {gap}", RC::of(&cv)));
    let it = must!(s.find_intersections(&cv, None), "find_intersections");
    chk!(it.is_empty(), "sc-apart", "{} intersections of objects {gap} apart", it.len());
    c.ev("separate pairs", 1);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        rule: "distinct kinds and shapes of the intersected curves",
        loads: vec![
            Workload { name: "plane", f: c21_plane, quick: 2400, thorough: 60000 },
            Workload { name: "space", f: c21_space, quick: 1800, thorough: 40000 },
            Workload { name: "apart", f: c21_apart, quick: 900, thorough: 20000 },
            Workload { name: "compound", f: c21_compound, quick: 900, thorough: 20000 },
            Workload { name: "joint", f: c21_joint, quick: 900, thorough: 20000 },
        ],
    },
    Prop {
        id: "C22",
        rule: "distinct kinds and shapes of the intersected surfaces and curves",
        loads: vec![
            Workload { name: "known", f: c22_known, quick: 400, thorough: 20000 },
            Workload { name: "sphere", f: c22_sphere, quick: 300, thorough: 20000 },
            Workload { name: "zigzag", f: c22_zigzag, quick: 200, thorough: 10000 },
            Workload { name: "apart", f: c22_apart, quick: 150, thorough: 5000 },
        ],
    }]
}
