//! C01-C04: evaluation, derivatives, knot vectors, construction.
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim, viol};
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimNameDiff, DimNameSub, Point3, Point4, U1};

/// deterministic spread of query parameters: breaks, interior, both ends
pub fn qparams(c: &mut Ctx, rc: &RC, per: usize) -> Vec<f64> {
    let mut v = rc.params(per);
    let (a, b) = rc.dom();
    for _ in 0..per {
        v.push(c.rng.range(a, b));
    }
    v
}

fn eval_any<D>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, s: &Spec) -> R
where
    D: nalgebra::DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC { p: s.p, k: s.knots.clone(), c: s.hom() };
    let sc = rc.scale();
    let dom = cv.knots_domain();
    chk!(dom == rc.dom(), "domain", "domain {:?} != {:?}", dom, rc.dom());
    chk!((cv.knots_domain_interval() - (dom.1 - dom.0)).abs() <= 1e-12 * (1.0 + dom.1.abs()), "domain-interval", "interval");
    chk!(cv.degree() == s.p, "degree", "degree");
    let w = cv.weights();
    chk!(w.len() == s.w.len() && w.iter().zip(&s.w).all(|(a, b)| a == b), "weights", "weights {:?} != {:?}", w, s.w);
    let dp = cv.dehomogenized_control_points();
    chk!(dp.len() == s.pts.len(), "cpts-count", "count");
    for (a, b) in dp.iter().zip(&s.pts) {
        chk!(dist(&pv(a), b) <= 1e-12 * sc, "cpts", "euclidean control point {:?} != {:?}", a, b);
    }
    for u in qparams(c, &rc, 4) {
        let got = pv(&cv.point_at(u));
        let want = rc.at(u);
        let e = dist(&got, &want) / sc;
        c.err("point", e);
        chk!(e <= 1e-10, "point", "point_at({u}) = {:?}, definition gives {:?}", got, want);
        c.ev("points", 1);
        // convex hull (necessary condition along random directions)
        let dir: V = got.iter().map(|_| c.rng.range(-1.0, 1.0)).collect();
        let sp = span_of(&rc.k, rc.p, u);
        let act: Vec<f64> = (sp - rc.p..=sp).map(|i| dot(&s.pts[i], &dir)).collect();
        let (lo, hi) = act.iter().fold((f64::MAX, f64::MIN), |(l, h), x| (l.min(*x), h.max(*x)));
        let g = dot(&got, &dir);
        chk!(g >= lo - 1e-9 * sc && g <= hi + 1e-9 * sc, "hull", "point_at({u}) = {:?} leaves the hull of its control points", got);
    }
    // sampling
    let (a, b) = rc.dom();
    let (x, y) = (c.rng.range(a, b), c.rng.range(a, b));
    let (s0, s1) = if c.rng.bool(0.5) { (a, b) } else { (x.min(y), x.max(y)) };
    let n = c.rng.int(2, 23);
    let sm = cv.sample_regular_range(s0, s1, n);
    let sp = cv.sample_regular_range_with_parameter(s0, s1, n);
    chk!(sm.len() == n && sp.len() == n, "sample-count", "{} / {} samples for {n}", sm.len(), sp.len());
    for i in 0..n {
        let t = s0 + (s1 - s0) * i as f64 / (n - 1) as f64;
        chk!((sp[i].0 - t).abs() <= 1e-12 * (1.0 + t.abs()), "sample-param", "sample {i} at {} instead of {t}", sp[i].0);
        let want = rc.at(t.clamp(a, b));
        chk!(dist(&pv(&sm[i]), &want) <= 1e-8 * sc * rc.wratio().max(1.0) , "sample", "sample {i}/{n} of [{s0},{s1}] is {:?} not {:?}", sm[i], want);
        chk!(dist(&pv(&sp[i].1), &pv(&sm[i])) <= 1e-9 * sc, "sample-agree", "the two sampling calls disagree");
    }
    c.ev("samples", n as u64);
    Ok(())
}

fn c01_eval(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let sc = *c.rng.pick(&[10.0, 1.0, 1e3, 0.05]);
    let s = spec_in(c, &SpecOpt { dim, pmax: 7, scale: sc, ..Default::default() });
    on_dim!(s, cv => eval_any(c, &cv, &s))
}

fn c01_f32(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, w: Some(W::Mild), ..Default::default() });
    let k32: Vec<f32> = s.knots.iter().map(|x| *x as f32).collect();
    let h: Vec<Vec<f32>> = s.hom().iter().map(|v| v.iter().map(|x| *x as f32).collect()).collect();
    let rc = RC { p: s.p, k: k32.iter().map(|x| *x as f64).collect(), c: h.iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect() };
    // keep spans comfortably larger than f32 resolution
    let sc = rc.scale();
    let ps = rc.params(3);
    let (a, _b) = rc.dom();
    let span = rc.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
    if span < 1e-3 * (1.0 + a.abs()) {
        return Err(Stop::Skip("span below f32 resolution"));
    }
    let got: Vec<(f64, V, f64, V)> = if dim == 2 {
        let cv = must!(NurbsCurve2D::<f32>::try_new(s.p, h.iter().map(|v| Point3::new(v[0], v[1], v[2])).collect(), k32.clone()), "try_new");
        ps.iter().map(|u| { let u = *u as f32; (u as f64, pv(&cv.point_at(u)), 0.0, vv(&cv.tangent_at(u))) }).collect()
    } else {
        let cv = must!(NurbsCurve3D::<f32>::try_new(s.p, h.iter().map(|v| Point4::new(v[0], v[1], v[2], v[3])).collect(), k32.clone()), "try_new");
        ps.iter().map(|u| { let u = *u as f32; (u as f64, pv(&cv.point_at(u)), 0.0, vv(&cv.tangent_at(u))) }).collect()
    };
    for (u, g, _, _) in got {
        let (a, b) = rc.dom();
        let want = rc.at(u.clamp(a, b));
        chk!(dist(&g, &want) <= 2e-4 * sc, "point-f32", "f32 point_at({u}) = {:?}, definition gives {:?}", g, want);
        c.ev("points_f32", 1);
    }
    Ok(())
}

/// derivative monitor against the reference quotient rule
fn der_any<D>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, s: &Spec) -> R
where
    D: nalgebra::DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC { p: s.p, k: s.knots.clone(), c: s.hom() };
    let br = rc.breaks();
    let minspan = br.windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
    // magnitude bounds for normalising errors
    let p = s.p as f64;
    let wr = rc.wratio();
    let s1 = rc.scale() * p / minspan * wr;
    let s2 = s1 * p / minspan * wr;
    let mults = |u: f64| s.knots.iter().filter(|k| **k == u).count();
    for u in qparams(c, &rc, 3) {
        let m = mults(u);
        let inner = u > br[0] && u < br[br.len() - 1];
        let d = rc.ders(u);
        let [w0, w1, w2] = d;
        let t = vv(&cv.tangent_at(u));
        let (pt, tt) = cv.point_tangent_at(u);
        chk!(dist(&pv(&pt), &w0) <= 1e-9 * rc.scale(), "pt-point", "point_tangent_at({u}).0 = {:?} want {:?}", pt, w0);
        // differentiable there: multiplicity < degree
        if !inner || m < s.p {
            let e = dist(&t, &w1) / s1;
            c.err("tangent", e);
            chk!(e <= 1e-9, "tangent", "tangent_at({u}) = {:?}, true derivative {:?}", t, w1);
            chk!(dist(&vv(&tt), &w1) <= 1e-9 * s1, "pt-tangent", "point_tangent_at({u}).1 = {:?}, want {:?}", tt, w1);
            c.ev("tangents", 1);
        }
        if !inner || m + 1 < s.p || m == 0 {
            let g = vv(&cv.second_derivative_at(u));
            let e = dist(&g, &w2) / s2;
            c.err("second", e);
            chk!(e <= 1e-9, "second", "second_derivative_at({u}) = {:?}, true {:?}", g, w2);
            c.ev("second_derivatives", 1);
        }
    }
    Ok(())
}
fn c02_der(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let w = if c.rng.bool(0.4) { W::One } else { W::Mild };
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, w: Some(w), ..Default::default() });
    on_dim!(s, cv => der_any(c, &cv, &s))
}
/// derivatives against finite differences of the evaluated points themselves
fn c02_fd(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let w = if c.rng.bool(0.3) { W::One } else { W::Mild };
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, w: Some(w), ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        for b in rc.breaks().windows(2) {
            let h = (b[1] - b[0]) * 1e-3;
            for f in [0.21, 0.5, 0.83] {
                let u = b[0] + (b[1] - b[0]) * f;
                let q: Vec<V> = [-2.0, -1.0, 1.0, 2.0, 0.0].iter().map(|k| pv(&cv.point_at(u + k * h))).collect();
                let t = vv(&cv.tangent_at(u));
                let dd = vv(&cv.second_derivative_at(u));
                let sc = rc.scale();
                let wr = rc.wratio();
                let p = s.p as f64;
                let span = b[1] - b[0];
                for x in 0..dim {
                    let d1 = (q[0][x] - 8.0 * q[1][x] + 8.0 * q[2][x] - q[3][x]) / (12.0 * h);
                    let d2 = (-q[0][x] + 16.0 * q[1][x] - 30.0 * q[4][x] + 16.0 * q[2][x] - q[3][x]) / (12.0 * h * h);
                    let m1 = sc * p * wr / span;
                    chk!((d1 - t[x]).abs() <= 1e-5 * m1 * wr * wr, "fd-tangent", "tangent_at({u})[{x}]={} finite difference {}", t[x], d1);
                    chk!((d2 - dd[x]).abs() <= 1e-4 * m1 * p / span * wr * wr * wr, "fd-second", "second_derivative_at({u})[{x}]={} finite difference {}", dd[x], d2);
                }
                c.ev("finite_difference_checks", 1);
            }
        }
        Ok(())
    })
}

fn c03_knots(c: &mut Ctx) -> R {
    let style = *c.rng.pick(&ALL_KS);
    let p = c.rng.int(1, 6);
    let n = if style == KS::Bezier { p + 1 } else { p + 2 + c.rng.int(0, 9) };
    let (a, len) = domain(&mut c.rng);
    let k = knots(&mut c.rng, p, n, style, a, len);
    c.describe(format!("p={p} knots={k:?}"));
    let mut sig = vec![p as u64, n as u64, style as u64];
    sig.extend(k.windows(2).map(|w| (w[0] == w[1]) as u64));
    c.shape(&sig);
    let kv = KnotVector::new(k.clone());
    chk!(kv.len() == k.len() && kv.to_vec() == k && kv.first() == k[0] && kv.last() == k[k.len() - 1] && !kv.is_empty(), "accessors", "accessors");
    let dom = kv.domain(p);
    chk!(dom == (k[p], k[n]), "domain", "domain {:?}", dom);
    let nn = n - 1;
    let rc = RC { p, k: k.clone(), c: vec![vec![0.0, 1.0]; n] };
    for u in qparams(c, &rc, 4) {
        let want = span_of(&k, p, u);
        let got = kv.find_knot_span_index(nn, p, u);
        chk!(got == want, "span", "span of {u} is {got}, expected {want}");
        let lin = kv.find_knot_span_linear(nn + 1, p, u);
        chk!(lin == want, "span-linear", "linear span of {u} is {lin}, expected {want}");
        let b = kv.basis_functions(got, u, p);
        let wb = basis(&k, p, u);
        chk!(b.len() == p + 1, "basis-len", "len");
        let sum: f64 = b.iter().sum();
        chk!((sum - 1.0).abs() < 1e-10, "partition", "basis sums to {sum} at {u}");
        for (i, x) in b.iter().enumerate() {
            chk!(*x >= -1e-12, "nonneg", "negative basis {x} at {u}");
            chk!((x - wb[got - p + i]).abs() < 1e-10, "basis", "basis {i} at {u} = {x} want {}", wb[got - p + i]);
        }
        let nd = c.rng.int(1, p);
        let d = kv.derivative_basis_functions(got, u, p, nd);
        chk!(d.len() == nd + 1, "dbasis-rows", "rows {}", d.len());
        let minspan = rc.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        for j in 0..=nd {
            let w = dbasis_in(&k, p, got, u, j);
            let sc = (p as f64 / minspan).powi(j as i32) * (1u64 << j) as f64;
            for i in 0..=p {
                chk!((d[j][i] - w[got - p + i]).abs() <= 1e-10 * sc, "dbasis", "derivative {j} of basis {i} at {u} = {} want {}", d[j][i], w[got - p + i]);
            }
        }
        c.ev("basis_rows", 1);
    }
    // clamp
    for _ in 0..4 {
        let u = c.rng.range(k[0] - len, k[0] + 2.0 * len);
        chk!(kv.clamp(p, u) == u.max(dom.0).min(dom.1), "clamp", "clamp({u}) = {}", kv.clamp(p, u));
    }
    // multiplicity
    let m = kv.multiplicity();
    let mut want: Vec<(f64, usize)> = vec![];
    for x in &k {
        match want.last_mut() {
            Some(l) if l.0 == *x => l.1 += 1,
            _ => want.push((*x, 1)),
        }
    }
    chk!(m.len() == want.len() && m.iter().zip(&want).all(|(a, b)| *a.knot() == b.0 && a.multiplicity() == b.1), "multiplicity", "multiplicities {:?} want {:?}", m, want);
    // a knot slightly apart from its neighbours is a knot of its own
    {
        let mut near = k.clone();
        let i = c.rng.int(0, near.len() - 1);
        let v = near[i] + (near[near.len() - 1] - near[0]) * 10f64.powf(c.rng.range(-9.0, -3.0));
        near.insert(i + 1, v);
        near.sort_by(|a, b| a.total_cmp(b));
        let mut want: Vec<(f64, usize)> = vec![];
        for x in &near {
            match want.last_mut() {
                Some(l) if l.0 == *x => l.1 += 1,
                _ => want.push((*x, 1)),
            }
        }
        if want.windows(2).all(|w| w[1].0 - w[0].0 > 1e-12) {
            let m = KnotVector::new(near.clone()).multiplicity();
            chk!(m.len() == want.len() && m.iter().zip(&want).all(|(a, b)| *a.knot() == b.0 && a.multiplicity() == b.1), "multiplicity", "multiplicities {:?} of {near:?}, want {:?}", m, want);
            c.ev("near_knots", 1);
        }
    }
    let cl = want[0].1 > p && want[want.len() - 1].1 > p;
    chk!(kv.is_clamped(p) == cl, "is-clamped", "is_clamped {} want {cl}", kv.is_clamped(p));
    chk!(kv.is_clamped(p + 1) == (want[0].1 > p + 1 && want[want.len() - 1].1 > p + 1), "is-clamped", "is_clamped(p+1)");
    // one-sided clamped vectors
    let mut half = k.clone();
    half[0] -= 1.0;
    chk!(!KnotVector::new(half.clone()).is_clamped(p) || want[0].1 > p + 1, "is-clamped", "half clamped reported clamped");
    let mut half = k.clone();
    let l = half.len();
    half[l - 1] += 1.0;
    chk!(!KnotVector::new(half).is_clamped(p), "is-clamped", "half clamped reported clamped");
    // floor / add
    for _ in 0..3 {
        let u = if c.rng.bool(0.5) { *c.rng.pick(&k) } else { c.rng.range(k[0] - 0.1 * len, k[l - 1] + 0.1 * len) };
        let f = kv.floor(u);
        let wf = k.iter().rposition(|x| *x <= u);
        chk!(f == wf, "floor", "floor({u}) = {:?} want {:?}", f, wf);
        let mut kk = kv.clone();
        let at = kk.add(u);
        let mut w = k.clone();
        w.push(u);
        w.sort_by(|a, b| a.partial_cmp(b).unwrap());
        chk!(kk.to_vec() == w && kk[at] == u, "add", "add({u}) gives {:?} at {at}", kk);
        c.ev("knot_adds", 1);
    }
    // inversion mirrors the vector about its own range
    let inv = kv.inverse();
    let (f, la) = (k[0], k[l - 1]);
    for i in 0..l {
        let w = f + la - k[l - 1 - i];
        chk!((inv[i] - w).abs() <= 1e-12 * (1.0 + w.abs()) * l as f64, "invert", "inverse[{i}]={} want {w}", inv[i]);
    }
    // regular spacing
    let divs = c.rng.int(1, 12);
    let (spans, bases) = kv.regulary_spaced_basis_functions(p, divs);
    let (dspans, dbases) = kv.regularly_spaced_derivative_basis_functions(p, divs);
    chk!(spans.len() == divs + 1 && bases.len() == divs + 1 && dspans.len() == divs + 1 && dbases.len() == divs + 1, "regular-count", "count");
    for i in 0..=divs {
        let u = (dom.0 + (dom.1 - dom.0) * i as f64 / divs as f64).min(dom.1);
        // dense row: span choice may differ by rounding exactly at a knot
        let row = |sp: usize, b: &Vec<f64>| {
            let mut r = vec![0.0; n];
            for x in 0..=p {
                r[sp - p + x] = b[x];
            }
            r
        };
        let want = basis(&k, p, u);
        let g = row(spans[i], &bases[i]);
        let gd = row(dspans[i], &dbases[i][0]);
        for x in 0..n {
            chk!((g[x] - want[x]).abs() < 1e-8, "regular-basis", "regular basis {i}/{divs} (u={u}) fn {x} = {} want {}", g[x], want[x]);
            chk!((gd[x] - want[x]).abs() < 1e-8, "regular-dbasis0", "regular derivative basis {i}/{divs} (u={u}) fn {x} = {} want {}", gd[x], want[x]);
        }
        let nearknot = k.iter().any(|x| (x - u).abs() < 1e-9 * (1.0 + len));
        if !nearknot {
            let sp = span_of(&k, p, u);
            let d1 = dbasis_in(&k, p, sp, u, 1);
            let minspan = rc.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
            for x in 0..=p {
                chk!((dbases[i][1][x] - d1[sp - p + x]).abs() < 1e-8 * p as f64 / minspan, "regular-dbasis1", "first derivative basis {i}/{divs}");
            }
        }
        c.ev("regular_rows", 1);
    }
    Ok(())
}
/// uniform clamped generator
fn c03_uniform(c: &mut Ctx) -> R {
    let p = c.rng.int(1, 6);
    let n = c.rng.int(2, 12);
    let kv = KnotVector::<f64>::uniform(n, p);
    c.describe(format!("uniform({n},{p}) = {kv:?}"));
    c.shape(&[p as u64, n as u64]);
    chk!(kv.is_clamped(p), "uniform-clamped", "uniform({n},{p}) = {:?} not clamped", kv);
    let (a, b) = kv.domain(p);
    let m = kv.multiplicity();
    chk!(m.first().unwrap().multiplicity() == p + 1 && m.last().unwrap().multiplicity() == p + 1, "uniform-mult", "{:?}", kv);
    let step = (b - a) / (m.len() - 1) as f64;
    for (i, x) in m.iter().enumerate() {
        chk!((x.knot() - (a + step * i as f64)).abs() < 1e-9, "uniform-step", "{:?}", kv);
    }
    c.ev("uniform_vectors", 1);
    Ok(())
}

pub fn structure<D>(cv: &NurbsCurve<f64, D>, what: &str) -> R
where
    D: nalgebra::DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC::of(cv);
    chk!(rc.k.len() == rc.c.len() + rc.p + 1, format!("structure:{what}"), "{what}: {} knots for {} control points of degree {}", rc.k.len(), rc.c.len(), rc.p);
    chk!(rc.c.len() > rc.p, format!("structure:{what}"), "{what}: {} control points of degree {}", rc.c.len(), rc.p);
    chk!(finite(&rc.k) && rc.k.windows(2).all(|w| w[0] <= w[1]), format!("structure:{what}"), "{what}: knots not sorted/finite {:?}", rc.k);
    let d = rc.c[0].len() - 1;
    chk!(rc.c.iter().all(|p| finite(p)), format!("structure:{what}"), "{what}: control points not finite {:?}", rc.c);
    chk!(rc.c.iter().all(|p| p[d] > 0.0), format!("structure:{what}"), "{what}: weights not positive {:?}", rc.c);
    let (a, b) = rc.dom();
    chk!(a < b, format!("structure:{what}"), "{what}: empty domain [{a},{b}]");
    Ok(())
}

fn c04_ctor(c: &mut Ctx) -> R {
    let p = c.rng.int(0, 6);
    let n = c.rng.int(0, 10);
    let m = (n + p + 1) as i64 + if c.rng.bool(0.5) { 0 } else { c.rng.int(0, 6) as i64 - 3 };
    let m = m.max(0) as usize;
    let mut ks: Vec<f64> = (0..m).map(|i| i as f64 * 0.5).collect();
    if c.rng.bool(0.3) {
        c.rng.shuffle(&mut ks);
    }
    let pts: Vec<Point3<f64>> = (0..n).map(|_| Point3::new(c.rng.range(-1.0, 1.0), c.rng.range(-1.0, 1.0), 1.0)).collect();
    c.describe(format!("try_new(degree={p}, {n} points, {m} knots {ks:?})"));
    c.shape(&[p as u64, n as u64, m as u64]);
    let valid = n > p && m == n + p + 1;
    let r = NurbsCurve2D::try_new(p, pts.clone(), ks.clone());
    chk!(r.is_ok() == valid, "accept", "try_new(degree {p}, {n} points, {m} knots) -> ok={} expected {valid}", r.is_ok());
    c.ev(if valid { "accepted" } else { "rejected" }, 1);
    if let Ok(cv) = r {
        chk!(cv.control_points().len() == n && cv.control_points() == &pts, "ctor-points", "points changed");
        ks.sort_by(|a, b| a.partial_cmp(b).unwrap());
        chk!(cv.knots().to_vec() == ks, "ctor-knots", "knots {:?}", cv.knots());
        if p > 0 {
            structure(&cv, "try_new")?;
        }
    }
    Ok(())
}
fn c04_normalize(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let mut nv = cv.clone();
        nv.normalize_knots();
        let nr = RC::of(&nv);
        chk!(nr.dom().0.abs() < 1e-12 && (nr.dom().1 - 1.0).abs() < 1e-12, "norm-range", "normalised knots {:?}", nr.k);
        let (f, la) = rc.dom();
        for (i, k) in nr.k.iter().enumerate() {
            chk!((k - (rc.k[i] - f) / (la - f)).abs() < 1e-11, "norm-affine", "knot {i}: {k}");
        }
        structure(&nv, "normalize_knots")?;
        let ((a, b), (x, y)) = (rc.dom(), nr.dom());
        for i in 0..=20 {
            let t = i as f64 / 20.0;
            let g = pv(&nv.point_at((x + (y - x) * t).min(y)));
            let w = rc.at((a + (b - a) * t).min(b));
            chk!(dist(&g, &w) <= 1e-8 * rc.scale() * rc.wratio(), "norm-shape", "at fraction {t}: {:?} vs {:?}", g, w);
            c.ev("points", 1);
        }
        Ok(())
    })
}
/// structural invariant along a random history of restructuring operations
fn c04_history(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 4, extra: 5, ..Default::default() });
    on_dim!(s, cv => {
        let mut cur = cv.clone();
        let steps = c.rng.int(3, 8);
        let mut log = String::new();
        for _ in 0..steps {
            let (a, b) = cur.knots_domain();
            let t = a + (b - a) * c.rng.range(0.1, 0.9);
            let op = c.rng.int(0, 9);
            log.push_str(&format!(" op{op}({t})"));
            let d = format!("{} | {}", s.desc(), log);
            c.describe(d);
            if cur.control_points().len() > 60 || cur.degree() > 8 { break; }
            match op {
                0 => { must!(cur.try_add_knot(t), "try_add_knot"); structure(&cur, "try_add_knot")?; }
                1 => { let t2 = a + (b - a) * c.rng.range(0.1, 0.9); must!(cur.try_refine_knot(vec![t.min(t2), t.max(t2)]), "try_refine_knot"); structure(&cur, "try_refine_knot")?; }
                2 => { must!(cur.try_clamp(), "try_clamp"); structure(&cur, "try_clamp")?; }
                3 => { let (l, r) = must!(cur.try_split(t), "try_split"); structure(&l, "try_split")?; structure(&r, "try_split")?; cur = if c.rng.bool(0.5) { l } else { r }; }
                4 => { if cur.is_clamped() { let e = must!(cur.try_elevate_degree(cur.degree() + 1), "try_elevate_degree"); structure(&e, "try_elevate_degree")?; cur = e; } }
                5 => { cur.invert(); structure(&cur, "invert")?; }
                6 => { let segs = must!(cur.try_decompose_bezier_segments(), "decompose"); for x in &segs { structure(x, "decompose")?; } }
                7 => { cur.normalize_knots(); structure(&cur, "normalize_knots")?; }
                8 => { let t2 = a + (b - a) * c.rng.range(0.1, 0.9); if (t2 - t).abs() > 0.02 * (b - a) { let v = must!(cur.try_trim_range((t.min(t2), t.max(t2))), "try_trim_range"); for x in &v { structure(x, "trim")?; } cur = v[0].clone(); } }
                _ => { let e = cur.elevate_dimension(); structure(&e, "elevate_dimension")?; }
            }
            c.ev("operations", 1);
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    let _ = (std::marker::PhantomData::<Const<3>>,);
    vec![
        Prop {
            id: "C01",
            rule: "random curve specs (dim 2/3, degree 1-7, six knot styles, four weight regimes, several parameter ranges); distinct = (degree, #cpts, dim, rational, knot multiplicity pattern)",
            loads: vec![
                Workload { name: "eval", f: c01_eval, quick: 36000, thorough: 300000 },
                Workload { name: "f32", f: c01_f32, quick: 9000, thorough: 60000 },
            ],
        },
        Prop {
            id: "C02",
            rule: "as C01; derivative oracle = hodograph + quotient rule on the definition, and finite differences of evaluated points",
            loads: vec![
                Workload { name: "der", f: c02_der, quick: 30000, thorough: 200000 },
                Workload { name: "fd", f: c02_fd, quick: 12000, thorough: 80000 },
            ],
        },
        Prop {
            id: "C03",
            rule: "random knot vectors; distinct = (degree, count, style, repetition pattern)",
            loads: vec![
                Workload { name: "knots", f: c03_knots, quick: 36000, thorough: 250000 },
                Workload { name: "uniform", f: c03_uniform, quick: 600, thorough: 3000 },
            ],
        },
        Prop {
            id: "C04",
            rule: "random constructor inputs (valid and invalid) and random operation histories; distinct = input size triple / curve shape",
            loads: vec![
                Workload { name: "ctor", f: c04_ctor, quick: 24000, thorough: 120000 },
                Workload { name: "normalize", f: c04_normalize, quick: 6000, thorough: 30000 },
                Workload { name: "history", f: c04_history, quick: 24000, thorough: 150000 },
            ],
        },
    ]
}
