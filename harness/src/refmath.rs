//! Independent reference mathematics: textbook definitions evaluated in f64 on
//! plain vectors. Shares no code and no algorithm with the crate under test
//! (global Cox-de Boor recursion over all basis functions, hodograph control
//! points for derivatives).
use curvo::prelude::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, DimName, OPoint};

pub type V = Vec<f64>;

pub fn sub(a: &[f64], b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn add(a: &[f64], b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
pub fn mul(a: &[f64], s: f64) -> V {
    a.iter().map(|x| x * s).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    norm(&sub(a, b))
}
pub fn lerp(a: &[f64], b: &[f64], t: f64) -> V {
    a.iter().zip(b).map(|(x, y)| x + (y - x) * t).collect()
}
pub fn cross(a: &[f64], b: &[f64]) -> V {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn unit(a: &[f64]) -> V {
    mul(a, 1.0 / norm(a))
}
pub fn finite(a: &[f64]) -> bool {
    a.iter().all(|x| x.is_finite())
}

pub trait ToF {
    fn f(self) -> f64;
}
impl<T: FloatingPoint> ToF for T {
    fn f(self) -> f64 {
        nalgebra::try_convert::<T, f64>(self).unwrap()
    }
}

/// coordinates of a point/vector as f64
pub fn pv<T: FloatingPoint, D: DimName>(p: &OPoint<T, D>) -> V
where
    DefaultAllocator: Allocator<D>,
{
    p.coords.iter().map(|x| (*x).f()).collect()
}
pub fn vv<T: FloatingPoint, D: DimName>(p: &nalgebra::OVector<T, D>) -> V
where
    DefaultAllocator: Allocator<D>,
{
    p.iter().map(|x| (*x).f()).collect()
}

/// index i of the non-empty half-open span [k_i, k_{i+1}) holding u; the last
/// non-empty span of the domain at (or beyond) its end.
pub fn span_of(k: &[f64], p: usize, u: f64) -> usize {
    let n = k.len() - p - 2; // last control point
    let mut best = p;
    for i in p..=n {
        if k[i] < k[i + 1] {
            best = i;
            if u < k[i + 1] {
                return i;
            }
        }
    }
    best
}

/// Degree-p basis function N_i by the Cox-de Boor recursion, given the span
/// that is taken to be "active" (degree-0 function equal to one).
fn n_rec(k: &[f64], i: usize, p: usize, span: usize, u: f64) -> f64 {
    if p == 0 {
        return if i == span { 1.0 } else { 0.0 };
    }
    if i + p < span || i > span {
        return 0.0;
    }
    let d1 = k[i + p] - k[i];
    let d2 = k[i + p + 1] - k[i + 1];
    let mut r = 0.0;
    if d1 > 0.0 {
        r += (u - k[i]) / d1 * n_rec(k, i, p - 1, span, u);
    }
    if d2 > 0.0 {
        r += (k[i + p + 1] - u) / d2 * n_rec(k, i + 1, p - 1, span, u);
    }
    r
}

/// all basis functions at u (span chosen by `span_of`)
pub fn basis(k: &[f64], p: usize, u: f64) -> Vec<f64> {
    basis_in(k, p, span_of(k, p, u), u)
}
pub fn basis_in(k: &[f64], p: usize, span: usize, u: f64) -> Vec<f64> {
    let n = k.len() - p - 1;
    let mut b = vec![0.0; n];
    for i in span.saturating_sub(p)..=span.min(n - 1) {
        b[i] = n_rec(k, i, p, span, u);
    }
    b
}
/// j-th derivative of all degree-p basis functions inside `span`
pub fn dbasis_in(k: &[f64], p: usize, span: usize, u: f64, j: usize) -> Vec<f64> {
    let n = k.len() - p - 1;
    fn d(k: &[f64], i: usize, p: usize, span: usize, u: f64, j: usize) -> f64 {
        if j == 0 {
            return n_rec(k, i, p, span, u);
        }
        if p == 0 {
            return 0.0;
        }
        let d1 = k[i + p] - k[i];
        let d2 = k[i + p + 1] - k[i + 1];
        let mut r = 0.0;
        if d1 > 0.0 {
            r += p as f64 / d1 * d(k, i, p - 1, span, u, j - 1);
        }
        if d2 > 0.0 {
            r -= p as f64 / d2 * d(k, i + 1, p - 1, span, u, j - 1);
        }
        r
    }
    let mut b = vec![0.0; n];
    for i in span.saturating_sub(p)..=span.min(n - 1) {
        b[i] = d(k, i, p, span, u, j);
    }
    b
}

#[derive(Clone, Debug)]
pub struct RC {
    pub p: usize,
    pub k: Vec<f64>,
    /// homogeneous control points, weight last
    pub c: Vec<V>,
}

impl RC {
    pub fn of<T: FloatingPoint, D: DimName>(c: &NurbsCurve<T, D>) -> RC
    where
        DefaultAllocator: Allocator<D>,
    {
        RC {
            p: c.degree(),
            k: c.knots().iter().map(|x| (*x).f()).collect(),
            c: c.control_points().iter().map(pv).collect(),
        }
    }
    pub fn dom(&self) -> (f64, f64) {
        (self.k[self.p], self.k[self.k.len() - 1 - self.p])
    }
    /// interior + end break points of the domain, distinct
    pub fn breaks(&self) -> Vec<f64> {
        let (a, b) = self.dom();
        let mut v: Vec<f64> = self.k.iter().cloned().filter(|x| *x >= a && *x <= b).collect();
        v.dedup();
        v
    }
    pub fn hom(&self, u: f64, j: usize) -> V {
        self.hom_in(span_of(&self.k, self.p, u), u, j)
    }
    pub fn hom_in(&self, span: usize, u: f64, j: usize) -> V {
        let b = dbasis_in(&self.k, self.p, span, u, j);
        let d = self.c[0].len();
        let mut r = vec![0.0; d];
        for (i, w) in b.iter().enumerate() {
            if *w != 0.0 {
                for x in 0..d {
                    r[x] += w * self.c[i][x];
                }
            }
        }
        r
    }
    pub fn at(&self, u: f64) -> V {
        let h = self.hom(u, 0);
        let w = h[h.len() - 1];
        h[..h.len() - 1].iter().map(|x| x / w).collect()
    }
    /// value, first and second derivative (of the span at/right of u)
    pub fn ders(&self, u: f64) -> [V; 3] {
        self.ders_in(span_of(&self.k, self.p, u), u)
    }
    pub fn ders_in(&self, s: usize, u: f64) -> [V; 3] {
        let (h0, h1, h2) = (self.hom_in(s, u, 0), self.hom_in(s, u, 1), self.hom_in(s, u, 2));
        let d = h0.len() - 1;
        let (w0, w1, w2) = (h0[d], h1[d], h2[d]);
        let mut c0 = vec![0.0; d];
        let mut c1 = vec![0.0; d];
        let mut c2 = vec![0.0; d];
        for x in 0..d {
            c0[x] = h0[x] / w0;
            c1[x] = (h1[x] - w1 * c0[x]) / w0;
            c2[x] = (h2[x] - 2.0 * w1 * c1[x] - w2 * c0[x]) / w0;
        }
        [c0, c1, c2]
    }
    /// largest Euclidean coordinate magnitude of the control polygon
    pub fn scale(&self) -> f64 {
        let d = self.c[0].len() - 1;
        self.c
            .iter()
            .map(|c| norm(&c[..d].iter().map(|x| x / c[d]).collect::<V>()))
            .fold(1e-12, f64::max)
    }
    pub fn wratio(&self) -> f64 {
        let d = self.c[0].len() - 1;
        let mx = self.c.iter().map(|c| c[d]).fold(0.0, f64::max);
        let mn = self.c.iter().map(|c| c[d]).fold(f64::MAX, f64::min);
        mx / mn
    }
    pub fn euclid(&self) -> Vec<V> {
        let d = self.c[0].len() - 1;
        self.c.iter().map(|c| c[..d].iter().map(|x| x / c[d]).collect()).collect()
    }
    /// n parameters per non-empty span (inside), plus the breaks
    pub fn params(&self, n: usize) -> Vec<f64> {
        let br = self.breaks();
        let mut v = vec![];
        for w in br.windows(2) {
            v.push(w[0]);
            for i in 0..n {
                v.push(w[0] + (w[1] - w[0]) * (i as f64 + 0.5) / n as f64);
            }
        }
        v.push(br[br.len() - 1]);
        v
    }
    /// arc length over [a,b] by adaptive Gauss-Legendre inside every span
    pub fn length(&self, a: f64, b: f64) -> f64 {
        let br = self.breaks();
        let mut tot = 0.0;
        for w in br.windows(2) {
            let (l, h) = (w[0].max(a), w[1].min(b));
            if h <= l {
                continue;
            }
            let s = span_of(&self.k, self.p, 0.5 * (l + h));
            let f = |u: f64| norm(&self.ders_in(s, u)[1]);
            tot += adaptive(&f, l, h, 0);
        }
        tot
    }
}

const GX: [f64; 8] = [
    0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030,
    0.8656312023878318, 0.9445750230732326, 0.9894009349916499,
];
const GW: [f64; 8] = [
    0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339,
    0.0951585116824928, 0.0622535239386479, 0.0271524594117541,
];
pub fn gauss16(f: &dyn Fn(f64) -> f64, a: f64, b: f64) -> f64 {
    let (m, h) = (0.5 * (a + b), 0.5 * (b - a));
    let mut s = 0.0;
    for i in 0..8 {
        s += GW[i] * (f(m + h * GX[i]) + f(m - h * GX[i]));
    }
    s * h
}
pub fn adaptive(f: &dyn Fn(f64) -> f64, a: f64, b: f64, depth: usize) -> f64 {
    let whole = gauss16(f, a, b);
    let m = 0.5 * (a + b);
    let (l, r) = (gauss16(f, a, m), gauss16(f, m, b));
    if depth > 14 || (whole - l - r).abs() <= 1e-10 * (l + r).abs().max(1e-300) {
        return l + r;
    }
    adaptive(f, a, m, depth + 1) + adaptive(f, m, b, depth + 1)
}

#[derive(Clone, Debug)]
pub struct RS {
    pub p: usize,
    pub q: usize,
    pub ku: Vec<f64>,
    pub kv: Vec<f64>,
    /// c[i][j]: i along u, j along v
    pub c: Vec<Vec<V>>,
}
impl RS {
    pub fn of<T: FloatingPoint, D: DimName>(s: &NurbsSurface<T, D>) -> RS
    where
        D: nalgebra::DimNameSub<nalgebra::U1>,
        DefaultAllocator: Allocator<D> + Allocator<nalgebra::DimNameDiff<D, nalgebra::U1>>,
    {
        RS {
            p: s.u_degree(),
            q: s.v_degree(),
            ku: s.u_knots().iter().map(|x| (*x).f()).collect(),
            kv: s.v_knots().iter().map(|x| (*x).f()).collect(),
            c: s.control_points().iter().map(|r| r.iter().map(pv).collect()).collect(),
        }
    }
    pub fn dom(&self) -> ((f64, f64), (f64, f64)) {
        (
            (self.ku[self.p], self.ku[self.ku.len() - 1 - self.p]),
            (self.kv[self.q], self.kv[self.kv.len() - 1 - self.q]),
        )
    }
    fn h(&self, bu: &[f64], bv: &[f64]) -> V {
        let d = self.c[0][0].len();
        let mut r = vec![0.0; d];
        for (i, a) in bu.iter().enumerate() {
            if *a == 0.0 {
                continue;
            }
            for (j, b) in bv.iter().enumerate() {
                if *b == 0.0 {
                    continue;
                }
                for x in 0..d {
                    r[x] += a * b * self.c[i][j][x];
                }
            }
        }
        r
    }
    pub fn at(&self, u: f64, v: f64) -> V {
        let h = self.h(&basis(&self.ku, self.p, u), &basis(&self.kv, self.q, v));
        let w = h[h.len() - 1];
        h[..h.len() - 1].iter().map(|x| x / w).collect()
    }
    /// (S, Su, Sv)
    pub fn ders(&self, u: f64, v: f64) -> (V, V, V) {
        let (s, t) = (span_of(&self.ku, self.p, u), span_of(&self.kv, self.q, v));
        self.ders_in(s, t, u, v)
    }
    pub fn ders_in(&self, s: usize, t: usize, u: f64, v: f64) -> (V, V, V) {
        let (bu, bv) = (dbasis_in(&self.ku, self.p, s, u, 0), dbasis_in(&self.kv, self.q, t, v, 0));
        let (du, dv) = (dbasis_in(&self.ku, self.p, s, u, 1), dbasis_in(&self.kv, self.q, t, v, 1));
        let (h, hu, hv) = (self.h(&bu, &bv), self.h(&du, &bv), self.h(&bu, &dv));
        let d = h.len() - 1;
        let w = h[d];
        let p: V = (0..d).map(|x| h[x] / w).collect();
        let pu: V = (0..d).map(|x| (hu[x] - hu[d] * p[x]) / w).collect();
        let pv: V = (0..d).map(|x| (hv[x] - hv[d] * p[x]) / w).collect();
        (p, pu, pv)
    }
    pub fn scale(&self) -> f64 {
        let mut m = 1e-12f64;
        for r in &self.c {
            for c in r {
                let d = c.len() - 1;
                m = m.max(norm(&c[..d].iter().map(|x| x / c[d]).collect::<V>()));
            }
        }
        m
    }
}

fn binom(n: usize, k: usize) -> f64 {
    (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64)
}
impl RS {
    /// homogeneous mixed partial derivatives h[k][l], k + l <= d, taken inside the given spans
    pub fn hmixed(&self, s: usize, t: usize, u: f64, v: f64, d: usize) -> Vec<Vec<V>> {
        let bu: Vec<Vec<f64>> = (0..=d).map(|j| dbasis_in(&self.ku, self.p, s, u, j)).collect();
        let bv: Vec<Vec<f64>> = (0..=d).map(|j| dbasis_in(&self.kv, self.q, t, v, j)).collect();
        (0..=d).map(|k| (0..=d - k).map(|l| self.h(&bu[k], &bv[l])).collect()).collect()
    }
    /// Euclidean mixed partial derivatives, by Leibniz' rule on w*S = A
    pub fn mixed(&self, s: usize, t: usize, u: f64, v: f64, d: usize) -> Vec<Vec<V>> {
        let h = self.hmixed(s, t, u, v, d);
        let n = h[0][0].len() - 1;
        let w = h[0][0][n];
        let mut r: Vec<Vec<V>> = vec![];
        for k in 0..=d {
            let mut row: Vec<V> = vec![];
            for l in 0..=d - k {
                let mut x: V = h[k][l][..n].to_vec();
                for i in 0..=k {
                    for j in 0..=l {
                        if i + j == 0 {
                            continue;
                        }
                        let f = binom(k, i) * binom(l, j) * h[i][j][n];
                        let prev = if i == 0 { row[l - j].clone() } else { r[k - i][l - j].clone() };
                        for a in 0..n {
                            x[a] -= f * prev[a];
                        }
                    }
                }
                row.push(x.iter().map(|a| a / w).collect());
            }
            r.push(row);
        }
        r
    }
    pub fn ubreaks(&self) -> Vec<f64> {
        uniq(&self.ku[self.p..self.ku.len() - self.p])
    }
    pub fn vbreaks(&self) -> Vec<f64> {
        uniq(&self.kv[self.q..self.kv.len() - self.q])
    }
    pub fn wratio(&self) -> f64 {
        let mut lo = f64::MAX;
        let mut hi = 0.0f64;
        for r in &self.c {
            for c in r {
                lo = lo.min(c[c.len() - 1]);
                hi = hi.max(c[c.len() - 1]);
            }
        }
        hi / lo
    }
}
pub fn uniq(k: &[f64]) -> Vec<f64> {
    let mut r: Vec<f64> = vec![];
    for x in k {
        if r.last() != Some(x) {
            r.push(*x);
        }
    }
    r
}
pub fn minspan(b: &[f64]) -> f64 {
    b.windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min)
}
