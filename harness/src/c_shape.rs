//! C05-C10, C15-C17: operations that restructure a curve without changing it.
use crate::c_basic::structure;
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim};
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};

/// `cv` traces the reference curve `rc` on [a,b] at the same parameters
pub fn same_on<D>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, rc: &RC, a: f64, b: f64, tol: f64, key: &str) -> R
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let sc = rc.scale();
    let nr = RC::of(cv);
    let mut ps: Vec<f64> = rc.params(3).into_iter().chain(nr.params(2)).filter(|u| *u >= a && *u <= b).collect();
    ps.push(a);
    ps.push(b);
    for _ in 0..4 {
        ps.push(c.rng.range(a, b));
    }
    for u in ps {
        // at an interior discontinuity both one-sided values would be legal;
        // generators never create knots of multiplicity > degree
        let g = pv(&cv.point_at(u));
        let w = rc.at(u);
        let e = dist(&g, &w) / sc;
        c.err("shape", e);
        chk!(e <= tol, key, "{key}: at {u} the result evaluates to {:?}, the original to {:?} (err {e:.3e}); result degree {} knots {:?}", g, w, nr.p, nr.k);
    }
    c.ev("points_compared", 1);
    Ok(())
}

/// knots equal as multisets
fn knots_eq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-12 * (1.0 + x.abs()))
}

/// admissible insertion values: interior, resulting multiplicity <= degree
fn insertion(c: &mut Ctx, rc: &RC, cur: &[f64], allow_existing: bool) -> Option<f64> {
    let (a, b) = rc.dom();
    for _ in 0..20 {
        let u = if allow_existing && c.rng.bool(0.4) {
            *c.rng.pick(&rc.k)
        } else {
            a + (b - a) * c.rng.range(0.02, 0.98)
        };
        if u <= a || u >= b {
            continue;
        }
        let m = cur.iter().filter(|k| **k == u).count();
        // keep clear of near-coincident but different knots
        if cur.iter().any(|k| *k != u && (k - u).abs() < 1e-3 * (b - a)) {
            continue;
        }
        if m + 1 <= rc.p {
            return Some(u);
        }
    }
    None
}

fn c05_add(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let mut cur = cv.clone();
        let mut want = rc.k.clone();
        for _ in 0..c.rng.int(1, 5) {
            let Some(u) = insertion(c, &rc, &want, true) else { break };
            must!(cur.try_add_knot(u), "add");
            want.push(u);
            want.sort_by(|x, y| x.partial_cmp(y).unwrap());
            chk!(knots_eq(&cur.knots().to_vec(), &want), "add-knots", "after inserting {u}: {:?} want {:?}", cur.knots(), want);
            structure(&cur, "try_add_knot")?;
            chk!(cur.knots_domain() == (a, b), "add-domain", "domain changed");
            c.ev("knots_added", 1);
        }
        same_on(c, &cur, &rc, a, b, 1e-9, "add-shape")?;
        // out of range is an error
        let (f, l) = (rc.k[0], rc.k[rc.k.len() - 1]);
        chk!(cur.clone().try_add_knot(f - 0.5).is_err() && cur.clone().try_add_knot(l + 0.5).is_err(), "add-range", "knot outside the vector accepted");
        Ok(())
    })
}
fn c05_refine(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let mut cur = cv.clone();
        let mut want = rc.k.clone();
        for _round in 0..c.rng.int(1, 2) {
            let mut ins = vec![];
            for _ in 0..c.rng.int(0, 6) {
                let Some(u) = insertion(c, &rc, &want, true) else { break };
                let m = want.iter().filter(|k| **k == u).count();
                let reps = c.rng.int(1, rc.p - m);
                for _ in 0..reps { ins.push(u); want.push(u); }
            }
            want.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let sorted = c.rng.bool(0.7);
            if sorted { ins.sort_by(|x, y| x.partial_cmp(y).unwrap()); }
            let ascending = ins.windows(2).all(|w| w[0] <= w[1]);
            let d = format!("{} | refine {:?}", s.desc(), ins);
            c.describe(d);
            must!(cur.try_refine_knot(ins.clone()), "refine");
            let k = if ascending { "refine-knots" } else { "refine-unsorted-knots" };
            chk!(knots_eq(&cur.knots().to_vec(), &want), k, "after refining with {:?}: {:?} want {:?}", ins, cur.knots(), want);
            structure(&cur, "try_refine_knot")?;
            chk!(cur.knots_domain() == (a, b), "refine-domain", "domain changed");
            c.ev("knots_refined", ins.len() as u64);
        }
        same_on(c, &cur, &rc, a, b, 1e-9, "refine-shape")
    })
}
fn c05_clamp(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let mut cur = cv.clone();
        must!(cur.try_clamp(), "clamp");
        chk!(cur.is_clamped(), "clamp-is-clamped", "not clamped after clamping: {:?}", cur.knots());
        structure(&cur, "try_clamp")?;
        chk!(cur.knots_domain() == (a, b), "clamp-domain", "clamping changed the domain from {:?} to {:?}", (a, b), cur.knots_domain());
        same_on(c, &cur, &rc, a, b, 1e-9, "clamp-shape")?;
        let e = RC::of(&cur).euclid();
        let sc = rc.scale();
        chk!(dist(&e[0], &rc.at(a)) <= 1e-9 * sc && dist(&e[e.len() - 1], &rc.at(b)) <= 1e-9 * sc, "clamp-ends", "clamped curve does not start/end at its end control points");
        if cv.is_clamped() {
            chk!(cur == cv, "clamp-noop", "clamping a clamped curve changed it");
        }
        c.ev("clamped", 1);
        Ok(())
    })
}

/// knots inserted next to existing ones, closer than a modeller would place them
fn c05_near(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let mut want = rc.k.clone();
        let mut ins: Vec<f64> = vec![];
        for _ in 0..c.rng.int(1, 4) {
            let base = if !ins.is_empty() && c.rng.bool(0.3) { *c.rng.pick(&ins) } else if c.rng.bool(0.8) { *c.rng.pick(&rc.k) } else { c.rng.range(a, b) };
            let gap = (b - a) * 10f64.powf(c.rng.range(-9.0, -3.0));
            let u = if c.rng.bool(0.5) { base + gap } else { base - gap };
            let least = 1e-9 * (b - a) + 1e-14 * a.abs().max(b.abs());
            if u <= a || u >= b || want.iter().any(|k| (k - u).abs() < least) {
                continue;
            }
            ins.push(u);
            want.push(u);
        }
        if ins.is_empty() { return Err(Stop::Skip("no admissible knot")); }
        let one = c.rng.bool(0.4);
        c.describe(format!("{} | {} {:?}", s.desc(), if one { "add" } else { "refine" }, ins));
        let mut cur = cv.clone();
        if one {
            for u in &ins { must!(cur.try_add_knot(*u), "add"); }
        } else {
            must!(cur.try_refine_knot(ins.clone()), "refine");
        }
        want.sort_by(|x, y| x.partial_cmp(y).unwrap());
        chk!(knots_eq(&cur.knots().to_vec(), &want), "near-knots", "after inserting {ins:?}: {:?} want {:?}", cur.knots(), want);
        structure(&cur, "near knots")?;
        same_on(c, &cur, &rc, a, b, 1e-8, "near-shape")?;
        for u in &ins {
            let g = want.iter().map(|k| (k - u).abs()).filter(|d| *d > 0.0).fold(b - a, f64::min);
            for t in [*u, u - 0.5 * g, u + 0.5 * g, u - 3.0 * g, u + 3.0 * g] {
                let t = t.clamp(a, b);
                let (p, q) = (RC::of(&cur).at(t), rc.at(t));
                chk!(dist(&p, &q) <= 1e-8 * rc.scale() * rc.wratio(), "near-shape", "at {t} next to the inserted knot {u}: {p:?} instead of {q:?}");
            }
        }
        c.ev("knots inserted next to others", ins.len() as u64);
        Ok(())
    })
}

fn c06_undo(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let w = if c.rng.bool(0.4) { W::One } else { W::Mild };
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, w: Some(w), styles: &CLAMPED_KS, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let mut cur = cv.clone();
        let Some(u) = insertion(c, &rc, &rc.k, true) else { return Err(Stop::Skip("no admissible knot")) };
        let m0 = rc.k.iter().filter(|k| **k == u).count();
        let times = c.rng.int(1, rc.p - m0);
        for _ in 0..times { must!(cur.try_add_knot(u), "add"); }
        let before = cur.clone();
        let tol = *c.rng.pick(&[None, Some(1e-6), Some(1e-4)]);
        let d = format!("{} | insert {u} x{times} then remove tol={tol:?}", s.desc());
        c.describe(d);
        let t = must!(cur.try_remove_knot(u, tol), "remove");
        chk!(t >= times, "undo-count", "{times} redundant copies of knot {u} (multiplicity before {m0}) but only {t} removed");
        chk!(t <= m0 + times, "undo-count-max", "{t} copies removed of {}", m0 + times);
        removal_ok(c, &before, &cur, u, t, tol.unwrap_or(1e-6))?;
        if t == times {
            same_on(c, &cur, &rc, a, b, 1e-6 + 10.0 * tol.unwrap_or(1e-6), "undo-shape")?;
        }
        c.ev("undone", 1);
        Ok(())
    })
}

/// common post-conditions of a removal that reported `t`
fn removal_ok<D>(c: &mut Ctx, before: &NurbsCurve<f64, D>, after: &NurbsCurve<f64, D>, u: f64, t: usize, tol: f64) -> R
where
    D: DimName + DimNameSub<U1>,
    DefaultAllocator: Allocator<D> + Allocator<DimNameDiff<D, U1>>,
{
    let (x, y) = (RC::of(before), RC::of(after));
    let mut want = x.k.clone();
    for _ in 0..t {
        let i = want.iter().position(|k| *k == u);
        chk!(i.is_some(), "remove-count", "reported {t} removals of {u} from {:?}", x.k);
        want.remove(i.unwrap());
    }
    chk!(knots_eq(&y.k, &want), "remove-knots", "after {t} removals of {u}: {:?} want {:?}", y.k, want);
    chk!(y.c.len() + t == x.c.len(), "remove-cpts", "{} control points after {t} removals from {}", y.c.len(), x.c.len());
    structure(after, "try_remove_knot")?;
    if t == 0 {
        chk!(before == after, "remove-none", "nothing removed but the curve changed");
        return Ok(());
    }
    // deviation in homogeneous space is bounded by the tolerance per removal
    let (a, b) = x.dom();
    let sc = x.scale();
    let wmin = x.c.iter().map(|p| p[p.len() - 1]).fold(f64::MAX, f64::min).min(y.c.iter().map(|p| p[p.len() - 1]).fold(f64::MAX, f64::min));
    // one removal moves a homogeneous point by at most the tolerance; a projected
    // one by at most (1 + |P|) / w times that
    let factor = if x.c.iter().chain(&y.c).all(|p| (p[p.len() - 1] - 1.0).abs() < 1e-12) { 1.0 } else { (1.0 + sc) / wmin };
    let bound = tol * 2.0 * t as f64 * factor + 1e-9 * sc;
    for p in x.params(6) {
        let p = p.clamp(a, b);
        let d = dist(&y.at(p), &x.at(p));
        c.err("removal_deviation_over_bound", d / bound);
        chk!(d <= bound, "remove-shape", "removing {u} x{t} with tolerance {tol} moved the point at {p} by {d:.3e}: {:?} -> {:?}", x.at(p), y.at(p));
    }
    c.ev("removals_checked", t as u64);
    Ok(())
}

fn c06_needed(c: &mut Ctx) -> R {
    // random control points: interior knots are almost surely not removable
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, w: Some(W::Mild), styles: &[KS::ClampedUniform, KS::ClampedRandom, KS::ClampedRepeat], ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let int: Vec<f64> = rc.k.iter().cloned().filter(|k| *k > a && *k < b).collect();
        if int.is_empty() { return Err(Stop::Skip("no interior knot")) }
        let u = *c.rng.pick(&int);
        let m = int.iter().filter(|k| **k == u).count();
        // jump of the (p-m+1)-th homogeneous derivative across u: zero iff removable
        let j = rc.p - m + 1;
        let sp = span_of(&rc.k, rc.p, u);
        let mut lo = sp; while rc.k[lo] >= u { lo -= 1; }
        let jump = dist(&rc.hom_in(sp, u, j), &rc.hom_in(lo, u, j));
        let mut cur = cv.clone();
        let tol = *c.rng.pick(&[1e-6, 1e-3]);
        let d = format!("{} | remove {u} tol={tol}", s.desc());
        c.describe(d);
        let t = must!(cur.try_remove_knot(u, Some(tol)), "remove");
        removal_ok(c, &cv, &cur, u, t, tol)?;
        let minspan = rc.breaks().windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        // a jump this large means the curve cannot be within tolerance of one without the knot
        let scale = rc.scale() * (rc.p as f64 / minspan).powi(j as i32);
        if t > 0 && jump > 1e-3 * scale {
            // deviation check above already bounds it; count it
            c.ev("removed_despite_jump", 1);
        }
        c.ev(if t == 0 { "kept" } else { "removed" }, 1);
        Ok(())
    })
}
/// control points near a straight line: removals become possible within tolerance
fn c06_tol(c: &mut Ctx) -> R {
    let p = c.rng.int(1, 4);
    let n = p + 2 + c.rng.int(0, 6);
    let k = knots(&mut c.rng, p, n, KS::ClampedRandom, 0.0, 1.0);
    let tol = *c.rng.pick(&[1e-2, 1e-3, 1e-4]);
    let amp = tol * c.rng.range(0.01, 8.0);
    let g: Vec<f64> = (0..n).map(|i| (1..=p).map(|j| k[i + j]).sum::<f64>() / p as f64).collect();
    let rational = c.rng.bool(0.4);
    // weights that are themselves (almost) linear keep the homogeneous polygon straight
    let slope = c.rng.range(-0.6, 1.5);
    let w: Vec<f64> = g.iter().map(|x| if rational { 1.0 + slope * x + c.rng.range(-0.1, 0.1) * amp } else { 1.0 }).collect();
    let pts: Vec<V> = g.iter().zip(&w).map(|(x, w)| vec![(10.0 * x - 3.0) / w, c.rng.range(-1.0, 1.0) * amp / w]).collect();
    let s = Spec { p, knots: k, w, pts, style: KS::ClampedRandom, rational };
    c.describe(format!("{} tol={tol}", s.desc()));
    c.shape(&[p as u64, n as u64, tol.to_bits()]);
    let cv = s.c2();
    let rc = RC::of(&cv);
    let (a, b) = rc.dom();
    let int: Vec<f64> = rc.k.iter().cloned().filter(|k| *k > a && *k < b).collect();
    let u = *c.rng.pick(&int);
    let mut cur = cv.clone();
    let t = must!(cur.try_remove_knot(u, Some(tol)), "remove");
    removal_ok(c, &cv, &cur, u, t, tol)?;
    c.ev(if t == 0 { "kept" } else { "removed" }, 1);
    Ok(())
}

fn c07_elevate(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let all = c.rng.bool(0.25);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, styles: if all { &ALL_KS } else { &CLAMPED_KS }, ..Default::default() });
    let t = s.p + c.rng.int(0, 4);
    let t = if c.rng.bool(0.1) { c.rng.int(0, s.p) } else { t };
    let d = format!("{} | elevate to {t}", s.desc());
    c.describe(d);
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let e = must!(cv.try_elevate_degree(t), "elevate");
        if t <= s.p {
            chk!(e == cv, "elevate-noop", "elevation to {t} changed a degree {} curve", s.p);
            return Ok(());
        }
        chk!(e.degree() == t, "elevate-degree", "degree {} instead of {t}", e.degree());
        structure(&e, "try_elevate_degree")?;
        chk!(e.knots_domain() == (a, b), "elevate-domain", "domain {:?} instead of {:?}", e.knots_domain(), (a, b));
        same_on(c, &e, &rc, a, b, 1e-8, "elevate-shape")?;
        c.ev("elevated", 1);
        Ok(())
    })
}

/// a parameter to cut at: generic, at a knot, or close to the ends
pub fn cut(c: &mut Ctx, rc: &RC) -> f64 {
    let (a, b) = rc.dom();
    let int: Vec<f64> = rc.k.iter().cloned().filter(|k| *k > a && *k < b).collect();
    match c.rng.int(0, 3) {
        0 if !int.is_empty() => *c.rng.pick(&int),
        1 => a + (b - a) * *c.rng.pick(&[0.01, 0.99, 0.5]),
        _ => a + (b - a) * c.rng.range(0.02, 0.98),
    }
}

fn c08_split(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let u = cut(c, &rc);
        let atknot = rc.k.contains(&u);
        let d = format!("{} | split at {u}", s.desc());
        c.describe(d);
        let (l, r) = must!(cv.try_split(u), "split");
        for (x, (p, q)) in [(&l, (a, u)), (&r, (u, b))] {
            structure(x, "try_split")?;
            chk!(x.degree() == s.p, "split-degree", "degree");
            chk!(x.knots_domain() == (p, q), "split-domain", "piece has domain {:?} instead of {:?}", x.knots_domain(), (p, q));
            // exactly at u compare with the limit value (continuous there)
            same_on(c, x, &rc, p, q, 1e-8, "split-shape")?;
        }
        let sc = rc.scale();
        let ends = (pv(&l.point_at(u)), pv(&r.point_at(u)));
        chk!(dist(&ends.0, &ends.1) <= 1e-8 * sc, "split-join", "pieces do not meet: {:?} {:?}", ends.0, ends.1);
        c.ev(if atknot { "splits_at_knots" } else { "splits" }, 1);
        Ok(())
    })
}
/// repeated splitting: a chain of cuts still tiles the curve
fn c08_chain(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let w = if c.rng.bool(0.5) { W::One } else { W::Mild };
    let s = spec_in(c, &SpecOpt { dim, pmax: 4, w: Some(w), ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let mut pieces = vec![cv.clone()];
        for _ in 0..c.rng.int(2, 5) {
            let i = c.rng.int(0, pieces.len() - 1);
            let pr = RC::of(&pieces[i]);
            let (a, b) = pr.dom();
            if b - a < 1e-3 * (rc.dom().1 - rc.dom().0) { continue; }
            let u = cut(c, &pr);
            let (l, r) = must!(pieces[i].try_split(u), "split");
            pieces.splice(i..=i, [l, r]);
        }
        let mut at = rc.dom().0;
        for p in &pieces {
            let (a, b) = p.knots_domain();
            chk!(a == at, "chain-domain", "piece starts at {a}, previous ended at {at}");
            same_on(c, p, &rc, a, b, 1e-8, "chain-shape")?;
            at = b;
        }
        chk!(at == rc.dom().1, "chain-end", "chain ends at {at}");
        c.ev("chains", 1);
        Ok(())
    })
}
fn c09_trim(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let (x, y) = (cut(c, &rc), cut(c, &rc));
        let (x, y) = (x.min(y), x.max(y));
        if y - x < 5e-3 * (b - a) { return Err(Stop::Skip("range too short")) }
        let d = format!("{} | trim {x}..{y}", s.desc());
        c.describe(d);
        let v = must!(cv.try_trim_range((x, y)), "trim");
        chk!(v.len() == 1, "trim-count", "{} pieces for a forward range", v.len());
        structure(&v[0], "try_trim_range")?;
        chk!(v[0].knots_domain() == (x, y), "trim-domain", "trimmed domain {:?} want {:?}", v[0].knots_domain(), (x, y));
        same_on(c, &v[0], &rc, x, y, 1e-8, "trim-shape")?;
        let v = must!(cv.try_trim_range((y, x)), "trim-reversed");
        chk!(v.len() == 2, "trim-rev-count", "{} pieces for a reversed range", v.len());
        for (p, (f, t)) in v.iter().zip([(y, b), (a, x)]) {
            structure(p, "try_trim_range")?;
            chk!(p.knots_domain() == (f, t), "trim-rev-domain", "piece domain {:?} want {:?}", p.knots_domain(), (f, t));
            same_on(c, p, &rc, f, t, 1e-8, "trim-rev-shape")?;
        }
        c.ev("trims", 2);
        Ok(())
    })
}
/// ranges touching the ends of the domain
fn c09_ends(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 5, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let (a, b) = rc.dom();
        let x = cut(c, &rc);
        for (f, t) in [(a, x), (x, b), (a, b)] {
            let d = format!("{} | trim {f}..{t}", s.desc());
            c.describe(d);
            let v = must!(cv.try_trim_range((f, t)), "trim-end");
            chk!(v.len() == 1, "trim-end-count", "{} pieces", v.len());
            structure(&v[0], "try_trim_range@end")?;
            chk!(v[0].knots_domain() == (f, t), "trim-end-domain", "trimmed domain {:?} want {:?}", v[0].knots_domain(), (f, t));
            same_on(c, &v[0], &rc, f, t, 1e-8, "trim-end-shape")?;
            c.ev("end_trims", 1);
        }
        Ok(())
    })
}

fn c10_bezier(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let s = spec_in(c, &SpecOpt { dim, pmax: 6, ..Default::default() });
    on_dim!(s, cv => {
        let rc = RC::of(&cv);
        let keep = cv.clone();
        let segs = must!(cv.try_decompose_bezier_segments(), "decompose");
        chk!(keep == cv, "bezier-mutated", "original modified");
        let br = rc.breaks();
        chk!(segs.len() == br.len() - 1, "bezier-count", "{} segments for {} non-empty spans", segs.len(), br.len() - 1);
        for (i, g) in segs.iter().enumerate() {
            structure(g, "decompose")?;
            chk!(g.degree() == s.p && g.control_points().len() == s.p + 1, "bezier-single", "segment {i} has degree {} and {} control points", g.degree(), g.control_points().len());
            let (x, y) = g.knots_domain();
            chk!((x - br[i]).abs() < 1e-12 * (1.0 + x.abs()) && (y - br[i + 1]).abs() < 1e-12 * (1.0 + y.abs()), "bezier-domain", "segment {i} domain {:?} want {:?}", (x, y), (br[i], br[i + 1]));
            // compare strictly inside and at both ends (curve is continuous)
            let sc = rc.scale();
            for j in 0..=6 {
                let u = x + (y - x) * j as f64 / 6.0;
                let u = u.min(y);
                let e = dist(&pv(&g.point_at(u)), &rc.at(u)) / sc;
                c.err("bezier", e);
                chk!(e <= 1e-8, "bezier-shape", "segment {i} at {u}: {:?} want {:?}", g.point_at(u), rc.at(u));
            }
            c.ev("segments", 1);
        }
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    let rule = "random curve specs (dim 2/3, six knot styles, four weight regimes); distinct = (degree, #cpts, dim, rational, knot multiplicity pattern)";
    vec![
        Prop { id: "C05", rule, loads: vec![
            Workload { name: "add", f: c05_add, quick: 20000, thorough: 200000 },
            Workload { name: "refine", f: c05_refine, quick: 20000, thorough: 200000 },
            Workload { name: "clamp", f: c05_clamp, quick: 12000, thorough: 100000 },
            Workload { name: "near", f: c05_near, quick: 16000, thorough: 150000 },
        ]},
        Prop { id: "C06", rule, loads: vec![
            Workload { name: "undo", f: c06_undo, quick: 16000, thorough: 150000 },
            Workload { name: "needed", f: c06_needed, quick: 10000, thorough: 100000 },
            Workload { name: "tolerance", f: c06_tol, quick: 10000, thorough: 100000 },
        ]},
        Prop { id: "C07", rule, loads: vec![Workload { name: "elevate", f: c07_elevate, quick: 48000, thorough: 250000 }]},
        Prop { id: "C08", rule, loads: vec![
            Workload { name: "split", f: c08_split, quick: 40000, thorough: 200000 },
            Workload { name: "chain", f: c08_chain, quick: 16000, thorough: 80000 },
        ]},
        Prop { id: "C09", rule, loads: vec![
            Workload { name: "trim", f: c09_trim, quick: 32000, thorough: 160000 },
            Workload { name: "ends", f: c09_ends, quick: 16000, thorough: 80000 },
        ]},
        Prop { id: "C10", rule, loads: vec![Workload { name: "bezier", f: c10_bezier, quick: 40000, thorough: 200000 }]},
    ]
}
