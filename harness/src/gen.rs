//! Workload generators.
use crate::mon::Ctx;
use crate::refmath::*;
use crate::rng::Rng;
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimName, OPoint, Point2, Point3, Point4, Vector2, Vector3};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum KS {
    Bezier,
    ClampedUniform,
    ClampedRandom,
    ClampedRepeat,
    OpenUniform,
    OpenRandom,
}
pub const ALL_KS: [KS; 6] = [KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::ClampedRepeat, KS::OpenUniform, KS::OpenRandom];
pub const CLAMPED_KS: [KS; 4] = [KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::ClampedRepeat];

#[derive(Clone, Copy, Debug)]
pub enum W {
    One,
    Mild,
    Wide,
}

/// knots for n control points of degree p on roughly [a, a+len]
pub fn knots(r: &mut Rng, p: usize, n: usize, style: KS, a: f64, len: f64) -> Vec<f64> {
    let m = n + p + 1;
    match style {
        KS::OpenUniform => (0..m).map(|i| a + len * i as f64 / (m - 1) as f64).collect(),
        KS::OpenRandom => {
            let mut x = vec![0.0];
            for _ in 1..m {
                let l = *x.last().unwrap();
                x.push(l + r.range(0.2, 1.8));
            }
            let t = x[m - 1];
            x.iter().map(|v| a + len * v / t).collect()
        }
        _ => {
            let ni = n - p - 1;
            let mut int: Vec<f64> = vec![];
            match style {
                KS::Bezier | KS::ClampedUniform => {
                    for i in 0..ni {
                        int.push((i + 1) as f64 / (ni + 1) as f64);
                    }
                }
                KS::ClampedRandom => {
                    let mut s = 0.0;
                    for _ in 0..ni {
                        s += r.range(0.15, 1.5);
                        int.push(s);
                    }
                    let t = s + r.range(0.15, 1.5);
                    for v in int.iter_mut() {
                        *v /= t;
                    }
                }
                KS::ClampedRepeat => {
                    let mut s = 0.0;
                    while int.len() < ni {
                        s += r.range(0.2, 1.5);
                        let k = r.int(1, p).min(ni - int.len());
                        for _ in 0..k {
                            int.push(s);
                        }
                    }
                    let t = s + r.range(0.2, 1.5);
                    for v in int.iter_mut() {
                        *v /= t;
                    }
                }
                _ => {}
            }
            let mut k = vec![a; p + 1];
            k.extend(int.iter().map(|v| a + len * v));
            k.extend(vec![a + len; p + 1]);
            k
        }
    }
}

pub fn weight(r: &mut Rng, w: W) -> f64 {
    match w {
        W::One => 1.0,
        W::Mild => r.range(0.4, 2.5),
        W::Wide => 10f64.powf(r.range(-2.0, 2.0)),
    }
}

pub fn wstyle(r: &mut Rng) -> W {
    match r.int(0, 3) {
        0 => W::One,
        1 | 2 => W::Mild,
        _ => W::Wide,
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub p: usize,
    pub knots: Vec<f64>,
    pub pts: Vec<V>,
    pub w: Vec<f64>,
    pub style: KS,
    pub rational: bool,
}

impl Spec {
    pub fn desc(&self) -> String {
        format!("deg={} style={:?} knots={:?} pts={:?} w={:?}", self.p, self.style, self.knots, self.pts, self.w)
    }
    pub fn hom(&self) -> Vec<V> {
        self.pts
            .iter()
            .zip(&self.w)
            .map(|(p, w)| {
                let mut v = mul(p, *w);
                v.push(*w);
                v
            })
            .collect()
    }
    /// signature used to count distinct non-trivial inputs
    pub fn sig(&self) -> u64 {
        let mut parts = vec![self.p as u64, self.pts.len() as u64, self.pts[0].len() as u64, self.rational as u64];
        let mut run = 1u64;
        for w in self.knots.windows(2) {
            if w[0] == w[1] {
                run += 1;
            } else {
                parts.push(run);
                run = 1;
            }
        }
        parts.push(run);
        parts.push(self.style as u64);
        crate::rng::mix(&parts)
    }
    pub fn c2(&self) -> NurbsCurve2D<f64> {
        NurbsCurve2D::try_new(self.p, self.hom().iter().map(|h| Point3::new(h[0], h[1], h[2])).collect(), self.knots.clone()).unwrap()
    }
    pub fn c3(&self) -> NurbsCurve3D<f64> {
        NurbsCurve3D::try_new(self.p, self.hom().iter().map(|h| Point4::new(h[0], h[1], h[2], h[3])).collect(), self.knots.clone()).unwrap()
    }
}

pub struct SpecOpt<'a> {
    pub dim: usize,
    pub pmin: usize,
    pub pmax: usize,
    pub extra: usize,
    pub styles: &'a [KS],
    pub w: Option<W>,
    pub dom: bool,
    pub scale: f64,
}
impl Default for SpecOpt<'static> {
    fn default() -> Self {
        SpecOpt { dim: 2, pmin: 1, pmax: 6, extra: 8, styles: &ALL_KS, w: None, dom: true, scale: 10.0 }
    }
}

/// parameter ranges the knots are placed on
pub fn domain(r: &mut Rng) -> (f64, f64) {
    match r.int(0, 5) {
        0 | 1 => (0.0, 1.0),
        2 => (0.0, r.range(1.0, 20.0)),
        3 => (r.range(-8.0, 8.0), r.range(0.5, 6.0)),
        4 => (r.range(20.0, 90.0), r.range(5.0, 30.0)),
        _ => (0.0, r.range(0.05, 0.5)),
    }
}

pub fn spec(r: &mut Rng, o: &SpecOpt) -> Spec {
    let style = *r.pick(o.styles);
    let p = r.int(o.pmin, o.pmax);
    let n = if style == KS::Bezier { p + 1 } else { p + 1 + r.int(if style == KS::ClampedRepeat { 1 } else { 0 }, o.extra) };
    let (a, len) = if o.dom { domain(r) } else { (0.0, 1.0) };
    let k = knots(r, p, n, style, a, len);
    let ws = o.w.unwrap_or_else(|| wstyle(r));
    let walk = r.bool(0.5);
    let mut cur = vec![0.0; o.dim];
    let pts: Vec<V> = (0..n)
        .map(|_| {
            if walk {
                for x in cur.iter_mut() {
                    *x += r.range(-0.35, 0.5) * o.scale;
                }
                cur.clone()
            } else {
                (0..o.dim).map(|_| r.range(-o.scale, o.scale)).collect()
            }
        })
        .collect();
    let w: Vec<f64> = (0..n).map(|_| weight(r, ws)).collect();
    Spec { p, knots: k, pts, rational: !matches!(ws, W::One), w, style }
}

/// generate, describe and record the shape of a curve spec
pub fn spec_in(c: &mut Ctx, o: &SpecOpt) -> Spec {
    let s = spec(&mut c.rng, o);
    c.describe(s.desc());
    let sig = s.sig();
    c.shape(&[sig]);
    s
}

pub trait MkCurve: DimName {
    fn mk(s: &Spec) -> NurbsCurve<f64, Self>
    where
        DefaultAllocator: Allocator<Self>;
}
impl MkCurve for Const<3> {
    fn mk(s: &Spec) -> NurbsCurve<f64, Self> {
        s.c2()
    }
}
impl MkCurve for Const<4> {
    fn mk(s: &Spec) -> NurbsCurve<f64, Self> {
        s.c3()
    }
}

/// run the same block for a 2D or 3D curve built from `spec`
#[macro_export]
macro_rules! on_dim {
    ($spec:expr, $c:ident => $body:expr) => {
        if $spec.pts[0].len() == 2 {
            let $c = $spec.c2();
            $body
        } else {
            let $c = $spec.c3();
            $body
        }
    };
}

pub fn p2(v: &[f64]) -> Point2<f64> {
    Point2::new(v[0], v[1])
}
pub fn p3(v: &[f64]) -> Point3<f64> {
    Point3::new(v[0], v[1], v[2])
}
pub fn v2(v: &[f64]) -> Vector2<f64> {
    Vector2::new(v[0], v[1])
}
pub fn v3(v: &[f64]) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}

/// random orthonormal basis
pub fn frame3(r: &mut Rng) -> (V, V, V) {
    loop {
        let a: V = (0..3).map(|_| r.range(-1.0, 1.0)).collect();
        let b: V = (0..3).map(|_| r.range(-1.0, 1.0)).collect();
        if norm(&a) < 0.2 {
            continue;
        }
        let x = unit(&a);
        let d = dot(&b, &x);
        let y = sub(&b, &mul(&x, d));
        if norm(&y) < 0.2 {
            continue;
        }
        let y = unit(&y);
        let z = cross(&x, &y);
        return (x, y, z);
    }
}

#[derive(Clone, Debug)]
pub struct SSpec {
    pub p: usize,
    pub q: usize,
    pub ku: Vec<f64>,
    pub kv: Vec<f64>,
    pub pts: Vec<Vec<V>>,
    pub w: Vec<Vec<f64>>,
    pub sig: u64,
}
impl SSpec {
    pub fn s3(&self) -> NurbsSurface3D<f64> {
        let c = self
            .pts
            .iter()
            .zip(&self.w)
            .map(|(r, w)| r.iter().zip(w).map(|(p, w)| Point4::new(p[0] * w, p[1] * w, p[2] * w, *w)).collect())
            .collect();
        NurbsSurface3D::new(self.p, self.q, self.ku.clone(), self.kv.clone(), c)
    }
    pub fn s2(&self) -> NurbsSurface2D<f64> {
        let c = self
            .pts
            .iter()
            .zip(&self.w)
            .map(|(r, w)| r.iter().zip(w).map(|(p, w)| Point3::new(p[0] * w, p[1] * w, *w)).collect())
            .collect();
        NurbsSurface2D::new(self.p, self.q, self.ku.clone(), self.kv.clone(), c)
    }
    pub fn desc(&self) -> String {
        format!("surf p={} q={} ku={:?} kv={:?} pts={:?} w={:?}", self.p, self.q, self.ku, self.kv, self.pts, self.w)
    }
}

pub struct SOpt<'a> {
    pub pmax: usize,
    pub extra: usize,
    pub styles: &'a [KS],
    pub w: Option<W>,
    /// height amplitude relative to grid step; None = fully random points
    pub height: Option<f64>,
    pub dom: bool,
}
impl Default for SOpt<'static> {
    fn default() -> Self {
        SOpt { pmax: 4, extra: 4, styles: &ALL_KS, w: None, height: None, dom: true }
    }
}
pub fn sspec(c: &mut Ctx, o: &SOpt) -> SSpec {
    let r = &mut c.rng;
    let (p, q) = (r.int(1, o.pmax), r.int(1, o.pmax));
    let (su, sv) = (*r.pick(o.styles), *r.pick(o.styles));
    let nn = |r: &mut Rng, s: KS, p: usize| if s == KS::Bezier { p + 1 } else { p + 1 + r.int(if s == KS::ClampedRepeat { 1 } else { 0 }, o.extra) };
    let (n, m) = (nn(r, su, p), nn(r, sv, q));
    let (a, la) = if o.dom { domain(r) } else { (0.0, 1.0) };
    let (b, lb) = if o.dom { domain(r) } else { (0.0, 1.0) };
    let ku = knots(r, p, n, su, a, la);
    let kv = knots(r, q, m, sv, b, lb);
    let ws = o.w.unwrap_or_else(|| wstyle(r));
    let (fx, fy, fz) = frame3(r);
    let org: V = (0..3).map(|_| r.range(-5.0, 5.0)).collect();
    let (sx, sy) = (r.range(1.0, 3.0), r.range(1.0, 3.0));
    let mut pts = vec![];
    let mut w = vec![];
    for i in 0..n {
        let mut row = vec![];
        let mut wr = vec![];
        for j in 0..m {
            let pt = match o.height {
                None => (0..3).map(|_| r.range(-10.0, 10.0)).collect::<V>(),
                Some(h) => {
                    let (x, y) = ((i as f64 + r.range(-0.2, 0.2)) * sx, (j as f64 + r.range(-0.2, 0.2)) * sy);
                    let z = r.range(-h, h) * sx.min(sy);
                    add(&org, &add(&add(&mul(&fx, x), &mul(&fy, y)), &mul(&fz, z)))
                }
            };
            row.push(pt);
            wr.push(weight(r, ws));
        }
        pts.push(row);
        w.push(wr);
    }
    let sig = crate::rng::mix(&[p as u64, q as u64, n as u64, m as u64, su as u64, sv as u64, !matches!(ws, W::One) as u64]);
    let s = SSpec { p, q, ku, kv, pts, w, sig };
    c.describe(s.desc());
    c.shape(&[sig]);
    s
}

pub fn opt<T: FloatingPoint, D: DimName>(_: &OPoint<T, D>) -> usize
where
    DefaultAllocator: Allocator<D>,
{
    D::dim()
}
