//! C19/C20: closest points on curves and surfaces.
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must, on_dim};
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, U1};

pub fn mkp<D: DimName>(v: &[f64]) -> OPoint<f64, D>
where
    DefaultAllocator: Allocator<D>,
{
    let mut p = OPoint::<f64, D>::origin();
    for i in 0..D::dim() {
        p[i] = v[i];
    }
    p
}

/// dense sample of the distance function, used to know the true minimum and
/// whether it is separated from every other local minimum
pub struct Land {
    pub ts: Vec<f64>,
    pub fs: Vec<f64>,
    /// slope of the squared distance just left and right of every sample
    pub gs: Vec<(f64, f64)>,
    pub dmin: f64,
    pub tmin: f64,
}
/// positions and one-sided derivatives of a curve at many parameters
pub struct Dense {
    ts: Vec<f64>,
    pt: Vec<V>,
    dl: Vec<V>,
    dr: Vec<V>,
}
pub fn dense(rc: &RC, per: usize) -> Dense {
    let br = rc.breaks();
    let mut ts = vec![];
    for w in br.windows(2) {
        for i in 0..per {
            ts.push(w[0] + (w[1] - w[0]) * i as f64 / per as f64);
        }
    }
    ts.push(*br.last().unwrap());
    // cluster samples at the breaks, where local minima can hide next to a kink
    for w in br.windows(2) {
        for k in 1..60 {
            let h = (w[1] - w[0]) / per as f64 * 3.0 * 0.75f64.powi(k);
            ts.push(w[0] + h);
            ts.push(w[1] - h);
        }
    }
    ts.sort_by(|a, b| a.total_cmp(b));
    ts.dedup();
    let (mut pt, mut dl, mut dr) = (vec![], vec![], vec![]);
    for &t in &ts {
        let right = span_of(&rc.k, rc.p, t);
        let d = rc.ders_in(right, t);
        if br.contains(&t) && t > br[0] && t < br[br.len() - 1] {
            let left = (rc.p..rc.k.len()).rev().find(|i| rc.k[*i] < t).unwrap();
            dl.push(rc.ders_in(left, t)[1].clone());
        } else {
            dl.push(d[1].clone());
        }
        pt.push(d[0].clone());
        dr.push(d[1].clone());
    }
    Dense { ts, pt, dl, dr }
}
pub fn landscape(rc: &RC, dn: &Dense, q: &[f64]) -> Land {
    let ts = dn.ts.clone();
    let f = |t: f64| dist(&rc.at(t), q);
    let fs: Vec<f64> = dn.pt.iter().map(|p| dist(p, q)).collect();
    let i = (0..fs.len()).min_by(|a, b| fs[*a].total_cmp(&fs[*b])).unwrap();
    // golden refinement around every sample close to the best one
    let (mut dmin, mut tmin) = (fs[i], ts[i]);
    let slack = fs[i] + (0..fs.len() - 1).map(|k| (fs[k + 1] - fs[k]).abs()).fold(0.0, f64::max);
    for k in 0..fs.len() {
        let (l, r) = (if k > 0 { fs[k - 1] } else { f64::MAX }, if k + 1 < fs.len() { fs[k + 1] } else { f64::MAX });
        if fs[k] <= l && fs[k] <= r && fs[k] <= slack {
            let (mut a, mut b) = (ts[k.saturating_sub(1)], ts[(k + 1).min(fs.len() - 1)]);
            for _ in 0..80 {
                let (m1, m2) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
                if f(m1) <= f(m2) {
                    b = m2
                } else {
                    a = m1
                }
            }
            let t = (a + b) / 2.0;
            if f(t) < dmin {
                dmin = f(t);
                tmin = t;
            }
        }
    }
    let gs = (0..ts.len()).map(|i| (dot(&dn.dl[i], &sub(&dn.pt[i], q)), dot(&dn.dr[i], &sub(&dn.pt[i], q)))).collect();
    Land { ts, fs, gs, dmin, tmin }
}
impl Land {
    /// number of local minima not above `level`; the ends are joined if `closed`
    pub fn minima(&self, level: f64, closed: bool) -> usize {
        let n = self.fs.len();
        let mut c = 0;
        for i in 0..n {
            // a minimum between samples i-1 and i, or at a kink at i
            if i > 0 && self.gs[i - 1].1 < 0.0 && self.gs[i].0 >= 0.0 && self.fs[i - 1].min(self.fs[i]) <= level {
                c += 1;
            }
            let (first, last) = (i == 0, i + 1 == n);
            if self.fs[i] > level {
                continue;
            }
            if first {
                if self.gs[0].1 >= 0.0 && (!closed || self.gs[n - 1].0 < 0.0) {
                    c += 1;
                }
            } else if last {
                if !closed && self.gs[n - 1].0 < 0.0 {
                    c += 1;
                }
            } else if self.gs[i].0 < 0.0 && self.gs[i].1 >= 0.0 {
                c += 1;
            }
        }
        c
    }
}

/// how far the library's coarse polyline can be from the curve
pub fn sag(rc: &RC, samples: usize) -> f64 {
    let (a, b) = rc.dom();
    let h = (b - a) / (samples - 1) as f64;
    let mut s: f64 = 0.0;
    for i in 0..samples - 1 {
        let t0 = a + h * i as f64;
        let t1 = if i + 2 == samples { b } else { t0 + h };
        let (p, q) = (rc.at(t0), rc.at(t1));
        for k in 1..8 {
            let f = k as f64 / 8.0;
            s = s.max(dist(&rc.at(t0 + (t1 - t0) * f), &lerp(&p, &q, f)));
        }
    }
    s * 1.1
}

fn c19_closest(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let w = *c.rng.pick(&[W::One, W::Mild]);
    let (spec, closed) = match c.rng.int(0, 3) {
        0 | 1 => (spec_in(c, &SpecOpt { dim, pmax: 4, extra: 8, w: Some(w), ..Default::default() }), false),
        _ => {
            // closed curves: first = last point (kink at the seam) or periodic
            let mut s = spec_in(c, &SpecOpt { dim, pmin: 1, pmax: 4, extra: 8, w: Some(w), styles: &CLAMPED_KS, ..Default::default() });
            let n = s.pts.len();
            if n < 3 {
                return Err(Stop::Skip("too few points to close"));
            }
            // place the points around a loop
            for (i, p) in s.pts.iter_mut().enumerate() {
                let a = i as f64 / (n - 1) as f64 * std::f64::consts::TAU;
                let r = c.rng.range(6.0, 9.0);
                p[0] = r * a.cos();
                p[1] = r * a.sin();
            }
            s.pts[n - 1] = s.pts[0].clone();
            s.w[n - 1] = s.w[0];
            c.describe(s.desc());
            (s, true)
        }
    };
    on_dim!(spec, cv => c19_one(c, &cv, closed, 12))
}

/// polylines: the exact distance is known, every query must reach it
fn c19_polyline(c: &mut Ctx) -> R {
    let dim = c.rng.int(2, 3);
    let n = c.rng.int(2, 12);
    let sc = 10f64.powf(c.rng.range(-2.0, 3.0));
    let closed = n > 3 && c.rng.bool(0.5);
    let axis = c.rng.bool(0.3);
    let mut pts: Vec<V> = vec![(0..dim).map(|_| c.rng.range(-1.0, 1.0) * sc).collect()];
    while pts.len() < n {
        let mut p = pts[pts.len() - 1].clone();
        if axis {
            let d = c.rng.int(0, dim - 1);
            p[d] += c.rng.range(0.2, 1.0) * sc * c.rng.sign();
        } else {
            for x in p.iter_mut() {
                *x += c.rng.range(-1.0, 1.0) * sc;
            }
        }
        if dist(&p, &pts[pts.len() - 1]) > 0.05 * sc {
            pts.push(p);
        }
    }
    if closed && dist(&pts[n - 1], &pts[0]) > 0.05 * sc {
        pts.push(pts[0].clone());
    }
    let norm = c.rng.bool(0.5);
    c.describe(format!("polyline {pts:?} normalized={norm}"));
    c.shape(&[dim as u64, pts.len() as u64, closed as u64, axis as u64, norm as u64]);
    if dim == 2 {
        let ps: Vec<_> = pts.iter().map(|v| p2(v)).collect();
        c19_poly(c, &NurbsCurve2D::polyline(&ps, norm), &pts, sc)
    } else {
        let ps: Vec<_> = pts.iter().map(|v| p3(v)).collect();
        c19_poly(c, &NurbsCurve3D::polyline(&ps, norm), &pts, sc)
    }
}
fn seg_near(q: &[f64], a: &[f64], b: &[f64]) -> f64 {
    let d = sub(b, a);
    let t = (dot(&sub(q, a), &d) / dot(&d, &d)).clamp(0.0, 1.0);
    dist(q, &lerp(a, b, t))
}
fn c19_poly<D: DimName>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, pts: &[V], sc: f64) -> R
where
    D: DimNameSub<U1>,
    DefaultAllocator: Allocator<D>,
    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC::of(cv);
    let (a, b) = rc.dom();
    let dim = pts[0].len();
    for k in 0..24 {
        let on = rc.at(if c.rng.bool(0.3) { *c.rng.pick(&rc.breaks()) } else { c.rng.range(a, b) });
        let kind = k % 4;
        let r = [0.0, 0.1, 1.0, 5.0][kind] * sc;
        let q: V = (0..dim).map(|d| on[d] + c.rng.range(-1.0, 1.0) * r).collect();
        let want = pts.windows(2).map(|w| seg_near(&q, &w[0], &w[1])).fold(f64::MAX, f64::min);
        let t = must!(cv.find_closest_parameter(&mkp(&q)), "closest-error");
        chk!(t >= a && t <= b, "closest-domain", "parameter {t} outside [{a},{b}] for {q:?}");
        let f = dist(&rc.at(t), &q);
        c.err("polyline distance excess/scale", (f - want) / sc);
        c.ev("polyline queries", 1);
        chk!(f <= want + 1e-6 * sc, "closest-beaten", "query {q:?}: reported {t} at distance {f}, the polyline comes as close as {want}");
        let cp = must!(cv.find_closest_point(&mkp(&q)), "closest-error");
        chk!(dist(&pv(&cp), &rc.at(t)) <= 1e-9 * sc, "closest-point", "closest point {cp:?} is not the curve at the closest parameter");
    }
    Ok(())
}

/// periodic curves: the seam is smooth
fn c19_periodic(c: &mut Ctx) -> R {
    let n = c.rng.int(4, 9);
    let p = c.rng.int(2, 4.min(n - 1));
    let pts: Vec<V> = (0..n)
        .map(|i| {
            let a = i as f64 / n as f64 * std::f64::consts::TAU;
            let r = c.rng.range(5.0, 9.0);
            vec![r * a.cos(), r * a.sin()]
        })
        .collect();
    c.describe(format!("periodic degree {p} pts {pts:?}"));
    c.shape(&[p as u64, n as u64]);
    let ps: Vec<_> = pts.iter().map(|v| p2(v)).collect();
    let cv = must!(NurbsCurve2D::try_periodic(&ps, p), "periodic");
    c19_one(c, &cv, true, 16)
}

fn c19_conic(c: &mut Ctx) -> R {
    let (x, y, _) = frame3(&mut c.rng);
    let ctr: V = (0..3).map(|_| c.rng.range(-5.0, 5.0)).collect();
    let (r1, r2) = (c.rng.range(0.5, 8.0), c.rng.range(0.5, 8.0));
    let a0 = c.rng.range(-3.0, 3.0);
    let sw = c.rng.range(0.4, 6.0);
    let full = c.rng.bool(0.5);
    c.describe(format!("ellipse {ctr:?} {x:?} {y:?} {r1} {r2} full={full} from {a0} sweep {sw}"));
    c.shape(&[full as u64, ((r1 / r2) * 8.0) as u64, (sw * 2.0) as u64]);
    let cv = if full {
        must!(NurbsCurve3D::try_ellipse(&p3(&ctr), &v3(&mul(&x, r1)), &v3(&mul(&y, r2))), "ellipse")
    } else {
        must!(NurbsCurve3D::try_ellipse_arc(&p3(&ctr), &v3(&mul(&x, r1)), &v3(&mul(&y, r2)), a0, a0 + sw), "arc")
    };
    c19_one(c, &cv, full, 12)
}

fn c19_one<D: DimName>(c: &mut Ctx, cv: &NurbsCurve<f64, D>, closed: bool, queries: usize) -> R
where
    D: DimNameSub<U1>,
    DefaultAllocator: Allocator<D>,
    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
{
    let rc = RC::of(cv);
    let dim = D::dim() - 1;
    let (a, b) = rc.dom();
    let sc = rc.scale();
    let samples = cv.control_points().len() * cv.degree();
    let sg = sag(&rc, samples);
    let dn = dense(&rc, 96);
    for _ in 0..queries {
        let kind = c.rng.int(0, 3);
        let t = match c.rng.int(0, 5) {
            0 => *c.rng.pick(&rc.breaks()),
            1 => a + (b - a) * c.rng.range(0.0, 0.03),
            2 => b - (b - a) * c.rng.range(0.0, 0.03),
            _ => c.rng.range(a, b),
        };
        let on = rc.at(t);
        let q: V = match kind {
            0 => on.clone(),
            1 => on.iter().map(|x| x + c.rng.range(-0.05, 0.05) * sc).collect(),
            2 => (0..dim).map(|_| c.rng.range(-1.2, 1.2) * sc).collect(),
            _ => {
                let k = c.rng.range(2.0, 6.0);
                let d: V = unit(&(0..dim).map(|_| c.rng.range(-1.0, 1.0) + 0.001).collect::<V>());
                mul(&d, k * sc)
            }
        };
        let land = landscape(&rc, &dn, &q);
        let got = cv.find_closest_parameter(&mkp(&q));
        // the library samples the curve at `samples` parameters: competing
        // minima closer than that resolution are outside the guarantee
        let sep = land.minima(land.dmin + 2.0 * sg + 1e-4 * sc, closed) <= 1;
        let tol = 1e-6 * sc;
        if !sep {
            c.ev("queries with competing minima", 1);
            // still: a parameter of the domain and a point no worse than the sampling resolution
            let t = must!(got, "closest-error");
            chk!(t >= a && t <= b, "closest-domain", "parameter {t} outside [{a},{b}] for {q:?}");
            let f = dist(&rc.at(t), &q);
            chk!(f <= land.dmin + 2.0 * sg + tol, "closest-coarse", "query {q:?}: reported {t} at distance {f}, the curve comes as close as {} at {} (resolution {sg})", land.dmin, land.tmin);
            continue;
        }
        c.ev(["on-curve queries", "near queries", "far queries", "very far queries"][kind], 1);
        let t = must!(got, "closest-error");
        chk!(t >= a && t <= b, "closest-domain", "parameter {t} outside [{a},{b}] for {q:?}");
        let pt = rc.at(t);
        let f = dist(&pt, &q);
        if f > land.dmin + tol && f <= land.dmin + 2.0 * sg + tol {
            // a minimum next to the best one, too narrow for the landscape, is within the resolution
            let (mut x, mut d, mut h) = (t, f, (b - a) * 1e-4);
            while h > (b - a) * 1e-12 {
                match [x - h, x + h].into_iter().map(|y| y.clamp(a, b)).find(|y| dist(&rc.at(*y), &q) < d) {
                    Some(y) => (x, d) = (y, dist(&rc.at(y), &q)),
                    None => h *= 0.5,
                }
            }
            if d > f - tol {
                c.ev("queries answered by another minimum", 1);
                continue;
            }
        }
        c.err("distance excess/scale", (f - land.dmin) / sc);
        chk!(f <= land.dmin + tol, "closest-beaten", "query {q:?}: reported {t} at distance {f}, but the curve comes as close as {} at {}", land.dmin, land.tmin);
        let cp = must!(cv.find_closest_point(&mkp(&q)), "closest-error");
        chk!(dist(&pv(&cp), &pt) <= 1e-9 * sc, "closest-point", "closest point {cp:?} is not the curve at the closest parameter");
        if kind == 0 {
            chk!(dist(&pv(&cp), &q) <= tol, "closest-on-curve", "a point of the curve at {t} is {} from its closest point", dist(&pv(&cp), &q));
        }
    }
    Ok(())
}

/// dense grid of a surface for knowing the true closest point
struct Grid {
    us: Vec<f64>,
    vs: Vec<f64>,
    pt: Vec<Vec<V>>,
}
fn linspace(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..=n).map(|i| if i == n { b } else { a + (b - a) * i as f64 / n as f64 }).collect()
}
impl Grid {
    fn new(rs: &RS, nu: usize, nv: usize) -> Grid {
        let refine = |br: Vec<f64>, n: usize| -> Vec<f64> {
            let per = (n + br.len() - 2) / (br.len() - 1);
            let mut t = vec![];
            for w in br.windows(2) {
                t.extend(linspace(w[0], w[1], per.max(6)).into_iter().take(per.max(6)));
            }
            t.push(*br.last().unwrap());
            t
        };
        let us = refine(rs.ubreaks(), nu);
        let vs = refine(rs.vbreaks(), nv);
        let pt = us.iter().map(|u| vs.iter().map(|v| rs.at(*u, *v)).collect()).collect();
        Grid { us, vs, pt }
    }
    /// local minima (8 neighbours) not above level; refined minimum
    fn look(&self, rs: &RS, q: &[f64], level: f64, closed: (bool, bool)) -> (usize, f64, (f64, f64)) {
        let (n, m) = (self.us.len() as isize, self.vs.len() as isize);
        let f: Vec<Vec<f64>> = self.pt.iter().map(|r| r.iter().map(|p| dist(p, q)).collect()).collect();
        let mut lows = vec![];
        let mut best = (f64::MAX, 0usize, 0usize);
        for i in 0..n {
            for j in 0..m {
                let x = f[i as usize][j as usize];
                if x < best.0 {
                    best = (x, i as usize, j as usize);
                }
                // seam duplicates count once
                if (closed.0 && i == n - 1) || (closed.1 && j == m - 1) {
                    continue;
                }
                let mut ok = true;
                for di in -1..=1isize {
                    for dj in -1..=1isize {
                        let (mut a, mut b) = (i + di, j + dj);
                        if (di, dj) == (0, 0) {
                            continue;
                        }
                        if closed.0 {
                            a = (a + n - 1) % (n - 1);
                        }
                        if closed.1 {
                            b = (b + m - 1) % (m - 1);
                        }
                        if a < 0 || b < 0 || a >= n || b >= m {
                            continue;
                        }
                        let y = f[a as usize][b as usize];
                        // ties resolved by order so that a flat bottom counts once
                        if y < x || (y == x && (a, b) < (i, j)) {
                            ok = false;
                        }
                    }
                }
                if ok {
                    lows.push((x, i as usize, j as usize));
                }
            }
        }
        let least = self.descend(rs, q, best);
        // minima a descent from the level may end in: low enough, and worse than the best one
        let worse = 1e-5 + 0.5e-6 * rs.scale();
        let low = lows.iter().filter(|l| l.0 <= level).count();
        let rivals = lows.into_iter().filter(|l| {
            let r = self.descend(rs, q, *l);
            r.0 > least.0 + worse && r.0 <= level
        });
        (low.max(1 + rivals.count()), least.0, least.1)
    }
    /// pattern search from a sample
    fn descend(&self, rs: &RS, q: &[f64], best: (f64, usize, usize)) -> (f64, (f64, f64)) {
        let (dom_u, dom_v) = rs.dom();
        let step = ((dom_u.1 - dom_u.0) / self.us.len() as f64, (dom_v.1 - dom_v.0) / self.vs.len() as f64);
        pattern(rs, q, (self.us[best.1], self.vs[best.2]), best.0, step)
    }
}
/// pattern search
fn pattern(rs: &RS, q: &[f64], from: (f64, f64), at: f64, step: (f64, f64)) -> (f64, (f64, f64)) {
        let (dom_u, dom_v) = rs.dom();
        let ((mut u, mut v), mut d) = (from, at);
        let (mut hu, mut hv) = step;
        for _ in 0..60 {
            let mut moved = false;
            for (x, y) in [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (0.0, -1.0), (1.0, 1.0), (1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0)] {
                let (a, b) = ((u + hu * x).clamp(dom_u.0, dom_u.1), (v + hv * y).clamp(dom_v.0, dom_v.1));
                let e = dist(&rs.at(a, b), q);
                if e < d {
                    (u, v, d) = (a, b, e);
                    moved = true;
                    break;
                }
            }
            if !moved {
                hu *= 0.5;
                hv *= 0.5;
            }
        }
        (d, (u, v))
}

fn c20_one(c: &mut Ctx, s: &NurbsSurface3D<f64>, closed: (bool, bool), queries: usize, apex: Option<&V>) -> R {
    let rs = RS::of(s);
    let (du, dv) = rs.dom();
    let sc = rs.scale();
    // the parameters of the library's initial guesses
    let (n, m) = (s.control_points().len(), s.control_points()[0].len());
    let gu = if s.u_degree() <= 1 { rs.ubreaks() } else { linspace(du.0, du.1, (n - 1) * 2) };
    let gv = if s.v_degree() <= 1 { rs.vbreaks() } else { linspace(dv.0, dv.1, (m - 1) * 2) };
    let coarse: Vec<V> = gu.iter().flat_map(|u| gv.iter().map(|v| rs.at(*u, *v)).collect::<Vec<_>>()).collect();
    let grid = Grid::new(&rs, gu.len() * 5, gv.len() * 5);
    for _ in 0..queries {
        let pick = |c: &mut Ctx, d: (f64, f64)| match c.rng.int(0, 7) {
            0 => d.0,
            1 => d.1,
            _ => c.rng.range(d.0, d.1),
        };
        let (u, v) = (pick(c, du), pick(c, dv));
        let p = rs.at(u, v);
        let kind = c.rng.int(0, 2);
        let q: V = match kind {
            0 => p.clone(),
            1 => p.iter().map(|x| x + c.rng.range(-0.08, 0.08) * sc).collect(),
            _ => p.iter().map(|x| x + c.rng.range(-0.5, 0.5) * sc).collect(),
        };
        let g = coarse.iter().map(|p| dist(p, &q)).fold(f64::MAX, f64::min);
        if let Some(a) = apex {
            // nothing can be said where the descent starts at the singular point
            if dist(a, &q) <= g + 1e-9 * sc {
                c.ev("queries next to the apex", 1);
                continue;
            }
        }
        let (cnt, dmin, at) = grid.look(&rs, &q, g * 1.001 + 1e-9 * sc, closed);
        let got = must!(s.find_closest_parameter(&p3(&q)), "surface-closest-error");
        chk!(got.0 >= du.0 && got.0 <= du.1 && got.1 >= dv.0 && got.1 <= dv.1, "surface-closest-domain", "parameters {got:?} outside {du:?} x {dv:?} for {q:?}");
        let pt = rs.at(got.0, got.1);
        let f = dist(&pt, &q);
        let tol = 2e-5 + 1e-6 * sc;
        chk!(f <= g + tol, "surface-closest-coarse", "query {q:?}: {got:?} at distance {f}, a sample vertex is at {g}");
        let cp = must!(s.find_closest_point(&p3(&q)), "surface-closest-error");
        chk!(dist(&pv(&cp), &pt) <= 1e-9 * sc, "surface-closest-point", "closest point {cp:?} is not the surface at the closest parameters");
        if cnt > 1 {
            c.ev("queries with competing minima", 1);
            continue;
        }
        c.ev(["on-surface queries", "near queries", "far queries"][kind], 1);
        if f > dmin + tol {
            // another minimum, too narrow for the samples, is as good an answer as the descent can give
            let near = pattern(&rs, &q, got, f, ((du.1 - du.0) * 1e-3, (dv.1 - dv.0) * 1e-3));
            if near.0 > f - tol {
                c.ev("queries answered by another minimum", 1);
                continue;
            }
        }
        c.err("distance excess/scale", (f - dmin) / sc);
        chk!(f <= dmin + tol, "surface-closest-beaten", "query {q:?} (near {u},{v}): reported {got:?} at distance {f}, but the surface comes as close as {dmin} at {at:?}");
    }
    Ok(())
}

fn c20_nets(c: &mut Ctx) -> R {
    let w = *c.rng.pick(&[W::One, W::Mild]);
    let h = c.rng.range(0.1, 1.0);
    let styles = [KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::OpenUniform];
    let s = sspec(c, &SOpt { pmax: 3, extra: 3, w: Some(w), height: Some(h), styles: &styles, ..Default::default() });
    if (s.p == 1 && s.pts.len() > 2) || (s.q == 1 && s.pts[0].len() > 2) {
        return Err(Stop::Skip("creased surface (no curvature radius at the crease)"));
    }
    c20_one(c, &s.s3(), (false, false), 5, None)
}

fn c20_analytic(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| c.rng.range(-4.0, 4.0)).collect();
    let r = c.rng.range(0.5, 6.0);
    let k = c.rng.int(0, 3);
    c.shape(&[k as u64, (r * 4.0) as u64]);
    let circ = must!(NurbsCurve3D::try_circle(&p3(&o), &v3(&x), &v3(&y), r), "circle");
    let (s, closed) = match k {
        0 => {
            c.describe(format!("cylinder {o:?} {z:?} r={r}"));
            (NurbsSurface::extrude(&circ, &v3(&mul(&z, c.rng.range(1.0, 6.0)))), k)
        }
        1 => {
            c.describe(format!("sphere {o:?} {z:?} r={r}"));
            (must!(NurbsSurface::try_sphere(&p3(&o), &v3(&z), &v3(&x), r), "sphere"), k)
        }
        2 => {
            let prof = NurbsCurve3D::polyline(&[p3(&add(&o, &mul(&x, r))), p3(&add(&o, &add(&mul(&x, r * 1.5), &mul(&z, r))))], true);
            c.describe(format!("cone {o:?} {z:?} r={r}"));
            (must!(NurbsSurface::try_revolve(&prof, &p3(&o), &v3(&z), std::f64::consts::TAU), "revolve"), k)
        }
        _ => {
            let (a, b) = (c.rng.range(1.0, 8.0), c.rng.range(1.0, 8.0));
            c.describe(format!("patch of a sphere {o:?} {z:?} r={r} {a} {b}"));
            let prof = must!(NurbsCurve3D::try_arc(&p3(&o), &v3(&x), &v3(&z), r, -1.0, 1.2), "arc");
            (must!(NurbsSurface::try_revolve(&prof, &p3(&o), &v3(&z), a.min(5.0) * 0.8), "revolve"), k)
        }
    };
    if closed == 1 {
        // the distance to a sphere is known, at its poles as well
        for _ in 0..5 {
            let a = c.rng.range(0.0, std::f64::consts::TAU);
            let b = if c.rng.bool(0.5) { c.rng.range(0.0, 0.2) } else { c.rng.range(0.0, std::f64::consts::PI) };
            let n = add(&mul(&z, b.cos() * if c.rng.bool(0.5) { 1.0 } else { -1.0 }), &mul(&add(&mul(&x, a.cos()), &mul(&y, a.sin())), b.sin()));
            let d = r * c.rng.range(0.2, 3.0);
            let q = add(&o, &mul(&n, d));
            let p = must!(s.find_closest_point(&p3(&q)), "surface-closest-error");
            let f = dist(&pv(&p), &q);
            c.ev("sphere queries", 1);
            chk!(f <= (d - r).abs() + 2e-5 + 1e-6 * r, "sphere-closest", "query {q:?}, polar angle {b}: reported {p:?} at distance {f}, but the sphere is at distance {}", (d - r).abs());
        }
    }
    let rs = RS::of(&s);
    let (du, dv) = rs.dom();
    let eq = |a: V, b: V| dist(&a, &b) < 1e-9;
    let cu = (0..9).all(|i| eq(rs.at(du.0, dv.0 + (dv.1 - dv.0) * i as f64 / 8.0), rs.at(du.1, dv.0 + (dv.1 - dv.0) * i as f64 / 8.0)));
    let cw = (0..9).all(|i| eq(rs.at(du.0 + (du.1 - du.0) * i as f64 / 8.0, dv.0), rs.at(du.0 + (du.1 - du.0) * i as f64 / 8.0, dv.1)));
    c20_one(c, &s, (cu, cw), 5, None)
}

/// full turns of a segment, which may start on the axis (cones, discs, cylinders), or of an arc (spheres, tori):
/// the distance is the one in the half plane of the profile
fn c20_turned(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| c.rng.range(-4.0, 4.0)).collect();
    let sc = c.rng.range(0.5, 5.0);
    let at = |s: f64, h: f64, a: f64| add(&o, &add(&mul(&z, h), &mul(&add(&mul(&x, a.cos()), &mul(&y, a.sin())), s)));
    let k = c.rng.int(0, 3);
    let (mut r0, mut h0, mut r1, mut h1) = (c.rng.range(0.2, 1.0) * sc, 0.0, c.rng.range(0.2, 1.0) * sc, c.rng.range(0.3, 2.0) * sc);
    match k {
        0 => r0 = 0.0,
        1 => (r0, h1) = (0.0, h0),
        _ => {}
    }
    if c.rng.bool(0.5) {
        ((r0, h0), (r1, h1)) = ((r1, h1), (r0, h0));
    }
    let theta = c.rng.range(0.0, std::f64::consts::TAU);
    let arc = k == 3;
    // a torus around the axis
    let (big, small) = (c.rng.range(1.5, 3.0) * sc, c.rng.range(0.3, 0.9) * sc);
    let prof = if arc {
        must!(NurbsCurve3D::try_circle(&p3(&at(big, 0.0, theta)), &v3(&sub(&at(1.0, 0.0, theta), &o)), &v3(&z), small), "circle")
    } else {
        NurbsCurve3D::polyline(&[p3(&at(r0, h0, theta)), p3(&at(r1, h1, theta))], true)
    };
    let s = must!(NurbsSurface::try_revolve(&prof, &p3(&o), &v3(&z), std::f64::consts::TAU), "revolve");
    c.describe(if arc { format!("torus {o:?} {z:?} {big} {small}") } else { format!("turned segment {o:?} {z:?} ({r0},{h0}) ({r1},{h1}) from {theta}") });
    c.shape(&[k as u64, (r0 / sc * 8.0) as u64, (r1 / sc * 8.0) as u64]);
    let tol = 2e-5 + 1e-6 * sc;
    for _ in 0..8 {
        let a = c.rng.range(0.0, std::f64::consts::TAU);
        let (rho, h) = (c.rng.range(0.02, 2.0) * sc, c.rng.range(-1.0, 2.5) * sc);
        let q = at(rho, h, a);
        let d = if arc {
            let (e, f) = (rho - big, h);
            ((e * e + f * f).sqrt() - small).abs()
        } else {
            seg_near(&[rho, h], &[r0, h0], &[r1, h1])
        };
        let p = pv(&must!(s.find_closest_point(&p3(&q)), "surface-closest-error"));
        let f = dist(&p, &q);
        c.ev(["cone queries", "disc queries", "frustum queries", "torus queries"][k], 1);
        // an apex is left only along the parameter lines of the first guesses, 22.5 degrees apart
        let apex = if k == 0 { 2.5e-4 * rho } else { 0.0 };
        chk!(f <= d + tol + apex, "turned-closest", "query {q:?} (radius {rho}, height {h}, angle {a}): reported {p:?} at distance {f}, but the surface is at distance {d}");
        chk!(f >= d - tol, "turned-closest", "query {q:?}: reported {p:?} at distance {f}, closer than the surface at {d}");
    }
    Ok(())
}

/// fans whose rings are all open but one: a full turn, or shrunk to a point at the apex
fn c20_fans(c: &mut Ctx) -> R {
    let (x, y, z) = frame3(&mut c.rng);
    let o: V = (0..3).map(|_| c.rng.range(-4.0, 4.0)).collect();
    let (p, q) = (c.rng.int(2, 3), c.rng.int(1, 3));
    let (n, m) = (c.rng.int(p + 2, 8), q + 1);
    let sc = c.rng.range(0.5, 5.0);
    let apex = c.rng.bool(0.5);
    let full = if apex { m } else { c.rng.int(0, m - 1) };
    let turn = c.rng.range(2.0, 5.0);
    let bump = c.rng.range(0.0, 0.15);
    let ring = |j: usize| -> (f64, f64) {
        let s = j as f64 / q as f64;
        let r = if apex { s * 2.0 } else { 1.0 + s * 1.5 };
        (r * sc, if j == full { std::f64::consts::TAU } else { turn })
    };
    let net: Vec<Vec<V>> = (0..n)
        .map(|i| {
            (0..m)
                .map(|j| {
                    let (r, t) = ring(j);
                    let a = t * i as f64 / (n - 1) as f64;
                    let a = if i == n - 1 && j == full { 0.0 } else { a };
                    let h = if r == 0.0 || j == full { 0.0 } else { sc * c.rng.range(-bump, bump) };
                    add(&o, &add(&mul(&x, r * a.cos()), &add(&mul(&y, r * a.sin()), &mul(&z, h))))
                })
                .collect()
        })
        .collect();
    let knots = |p: usize, n: usize| -> Vec<f64> {
        let k = n - p;
        let mut v = vec![0.0; p + 1];
        v.extend((1..k).map(|i| i as f64 / k as f64));
        v.extend(vec![1.0; p + 1]);
        v
    };
    let h = |r: &[V]| -> Vec<nalgebra::Point4<f64>> { r.iter().map(|p| nalgebra::Point4::new(p[0], p[1], p[2], 1.0)).collect() };
    let turned = c.rng.bool(0.5);
    c.describe(format!("fan of degrees {p},{q} apex={apex} full ring={full} turned={turned} net {net:?}"));
    c.shape(&[p as u64, q as u64, n as u64, full as u64, apex as u64, turned as u64]);
    let s = if turned {
        let t: Vec<Vec<V>> = (0..m).map(|j| net.iter().map(|r| r[j].clone()).collect()).collect();
        NurbsSurface3D::new(q, p, knots(q, m), knots(p, n), t.iter().map(|r| h(r)).collect())
    } else {
        NurbsSurface3D::new(p, q, knots(p, n), knots(q, m), net.iter().map(|r| h(r)).collect())
    };
    let rs = RS::of(&s);
    let (du, dv) = rs.dom();
    for i in 0..=20 {
        for j in 0..=20 {
            let (_, a, b) = rs.ders(du.0 + (du.1 - du.0) * i as f64 / 20.0, dv.0 + (dv.1 - dv.0) * j as f64 / 20.0);
            if norm(&cross(&a, &b)) < 0.3 * norm(&a) * norm(&b) {
                return Err(Stop::Skip("folded fan (no curvature radius)"));
            }
        }
    }
    c20_one(c, &s, (false, false), 8, apex.then_some(&o))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        rule: "distinct (degree, control points, dimension, knot multiplicities, weights) curve shapes queried",
        loads: vec![
            Workload { name: "curves", f: c19_closest, quick: 4500, thorough: 60000 },
            Workload { name: "polylines", f: c19_polyline, quick: 1200, thorough: 20000 },
            Workload { name: "periodic", f: c19_periodic, quick: 900, thorough: 15000 },
            Workload { name: "conics", f: c19_conic, quick: 1200, thorough: 15000 },
        ],
    },
    Prop {
        id: "C20",
        rule: "distinct (degrees, net size, knot styles, weights) surface shapes queried",
        loads: vec![
            Workload { name: "nets", f: c20_nets, quick: 750, thorough: 10000 },
            Workload { name: "analytic", f: c20_analytic, quick: 150, thorough: 4000 },
            Workload { name: "turned", f: c20_turned, quick: 225, thorough: 8000 },
            Workload { name: "fans", f: c20_fans, quick: 750, thorough: 15000 },
        ],
    }]
}
