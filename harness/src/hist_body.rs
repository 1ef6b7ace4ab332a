// Included twice, with `T` = f64 and `T` = f32: histories of public operations.
use super::*;
type Cv2 = NurbsCurve2D<T>;
type Cv3 = NurbsCurve3D<T>;
type Cc2 = CompoundCurve<T, Const<3>>;
type Cc3 = CompoundCurve<T, Const<4>>;
type Sf = NurbsSurface3D<T>;

#[derive(Clone)]
enum Ob {
    A(Cv2),
    B(Cv3),
    C(Cc2),
    D(Cc3),
    R(Region<T>),
    S(Sf),
    Z(TrimmedSurface<T>),
}

fn t(x: f64) -> T {
    x as T
}
const SMALL: bool = std::mem::size_of::<T>() == 4;

/// every coordinate, weight and knot is finite, the knots are ordered and as many as needed
/// knots of a curve: in order, no knot repeated beyond what the degree allows
fn knots_fit(k: &KnotVector<T>, p: usize, what: &str) -> R {
    chk!(k.iter().all(|k| k.is_finite()), "non-finite", "{what}: knots {k:?}");
    let v = k.as_slice();
    chk!(v.windows(2).all(|w| w[0] <= w[1]), "knot-order", "{what}: knots {k:?}");
    let d = (v[p], v[v.len() - 1 - p]);
    chk!(d.0 < d.1, "domain", "{what}: empty domain {d:?} of degree {p} with knots {k:?}");
    for x in v {
        let m = v.iter().filter(|y| *y == x).count();
        chk!(m <= if *x > d.0 && *x < d.1 { p } else { p + 1 }, "multiplicity", "{what}: {m} copies of the knot {x} of degree {p} in {k:?}");
    }
    Ok(())
}
fn sound<D: nalgebra::DimName>(c: &NurbsCurve<T, D>, what: &str) -> R
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>,
{
    let n = c.control_points().len();
    chk!(c.knots().len() == n + c.degree() + 1, "knot-count", "{what}: {} knots for {n} control points of degree {}", c.knots().len(), c.degree());
    chk!(n > c.degree(), "point-count", "{what}: {n} control points of degree {}", c.degree());
    knots_fit(c.knots(), c.degree(), what)?;
    for p in c.control_points() {
        chk!(p.coords.iter().all(|x| x.is_finite()), "non-finite", "{what}: control point {:?}", p.coords.iter().collect::<Vec<_>>());
    }
    Ok(())
}
fn sound_cc<D: nalgebra::DimName>(c: &CompoundCurve<T, D>, what: &str) -> R
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>,
{
    for s in c.spans() {
        sound(s, what)?;
    }
    Ok(())
}
fn sound_sf(s: &Sf, what: &str) -> R {
    let (n, m) = (s.control_points().len(), s.control_points()[0].len());
    chk!(s.u_knots().len() == n + s.u_degree() + 1 && s.v_knots().len() == m + s.v_degree() + 1, "knot-count", "{what}: {} x {} knots for {n} x {m} points", s.u_knots().len(), s.v_knots().len());
    knots_fit(s.u_knots(), s.u_degree(), what)?;
    knots_fit(s.v_knots(), s.v_degree(), what)?;
    for r in s.control_points() {
        chk!(r.len() == m, "point-count", "{what}: rows of {m} and {} points", r.len());
        for p in r {
            chk!(p.coords.iter().all(|x| x.is_finite()), "non-finite", "{what}: control point {p:?}");
        }
    }
    Ok(())
}
fn sound_ob(o: &Ob, what: &str) -> R {
    match o {
        Ob::A(c) => sound(c, what),
        Ob::B(c) => sound(c, what),
        Ob::C(c) => sound_cc(c, what),
        Ob::D(c) => sound_cc(c, what),
        Ob::R(r) => {
            sound_cc(r.exterior(), what)?;
            r.interiors().iter().try_for_each(|i| sound_cc(i, what))
        }
        Ob::S(s) => sound_sf(s, what),
        Ob::Z(z) => {
            sound_sf(z.surface(), what)?;
            z.exterior().iter().try_for_each(|e| sound(*e, what))?;
            z.interiors().iter().try_for_each(|e| sound(e, what))
        }
    }
}
fn all(xs: &[T], what: &str) -> R {
    chk!(xs.iter().all(|x| x.is_finite()), "non-finite", "{what}: {xs:?}");
    Ok(())
}
fn size(o: &Ob) -> usize {
    match o {
        Ob::A(c) => c.control_points().len(),
        Ob::B(c) => c.control_points().len(),
        Ob::C(c) => c.spans().iter().map(|s| s.control_points().len()).sum(),
        Ob::D(c) => c.spans().iter().map(|s| s.control_points().len()).sum(),
        Ob::R(r) => r.exterior().spans().len() + r.interiors().iter().map(|i| i.spans().len()).sum::<usize>(),
        Ob::S(s) => s.control_points().len() * s.control_points()[0].len(),
        Ob::Z(z) => z.surface().control_points().len() * z.surface().control_points()[0].len(),
    }
}
fn degree(o: &Ob) -> usize {
    match o {
        Ob::A(c) => c.degree(),
        Ob::B(c) => c.degree(),
        Ob::S(s) => s.u_degree().max(s.v_degree()),
        Ob::Z(z) => z.surface().u_degree().max(z.surface().v_degree()),
        Ob::C(c) => c.spans().iter().map(|s| s.degree()).max().unwrap_or(0),
        _ => 0,
    }
}

/// a curve that is valid but awkward
fn awkward(c: &mut Ctx, dim: usize, sc: f64) -> Spec {
    let mut s = spec(&mut c.rng, &SpecOpt { dim, scale: sc, extra: 7, pmax: 5, ..Default::default() });
    let n = s.pts.len();
    match c.rng.int(0, 7) {
        0 => {
            // coincident neighbours
            let i = c.rng.int(0, n - 1);
            // (no piece of a flat curve collapses to a point: it would intersect itself everywhere)
            let j = c.rng.int(i, n - 1).min(if dim == 2 { i + s.p - 1 } else { n - 1 });
            for k in i..=j {
                s.pts[k] = s.pts[i].clone();
            }
        }
        1 => {
            // everything on a line, possibly running back
            let (a, b) = (s.pts[0].clone(), s.pts[n - 1].clone());
            for p in s.pts.iter_mut() {
                let u = c.rng.range(-1.0, 2.0);
                *p = lerp(&a, &b, u);
            }
        }
        2 if n > 2 => {
            // closed
            let a = s.pts[0].clone();
            s.pts[n - 1] = a;
            s.w[n - 1] = s.w[0];
        }
        3 => {
            let e = if SMALL { 1.0 } else { 3.0 };
            for w in s.w.iter_mut() {
                *w = 10f64.powf(c.rng.range(-e, e));
            }
        }
        4 => {
            // axis aligned
            let k = c.rng.int(0, dim - 1);
            let x = s.pts[0][k];
            for p in s.pts.iter_mut() {
                p[k] = x;
            }
        }
        _ => {}
    }
    s
}

struct World<'a> {
    c: &'a mut Ctx,
    pool: Vec<Ob>,
    log: Vec<String>,
    sc: f64,
}

impl World<'_> {
    fn say(&mut self, s: String) {
        if std::env::var("MON_TRACE").is_ok() {
            eprintln!("{s}");
        }
        self.log.push(s);
        let d = self.log.join("; ");
        self.c.describe(d);
    }
    fn point(&mut self) -> V {
        let s = self.sc * *self.c.rng.pick(&[1.0, 1.0, 1.0, 0.0, 30.0]);
        (0..3).map(|_| s * self.c.rng.range(-1.0, 1.0)).collect()
    }
    fn pt2(&mut self) -> Point2<T> {
        let p = self.point();
        Point2::new(t(p[0]), t(p[1]))
    }
    fn pt3(&mut self) -> Point3<T> {
        let p = self.point();
        Point3::new(t(p[0]), t(p[1]), t(p[2]))
    }
    fn dir3(&mut self) -> Vector3<T> {
        let f = if self.c.rng.bool(0.4) { frame3(&mut self.c.rng).0 } else { vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]][self.c.rng.int(0, 2)].to_vec() };
        Vector3::new(t(f[0]), t(f[1]), t(f[2]))
    }
    /// a parameter: usually inside the domain, often at a knot or an end
    fn param(&mut self, k: &KnotVector<T>, d: (T, T)) -> T {
        let r = &mut self.c.rng;
        match r.int(0, 9) {
            0 => d.0,
            1 => d.1,
            2 | 3 => {
                let x = *r.pick(k.as_slice());
                if x < d.0 { d.0 } else if x > d.1 { d.1 } else { x }
            }
            4 => d.0 + (d.1 - d.0) * t(10f64.powf(r.range(-9.0, -1.0))),
            5 => d.1 - (d.1 - d.0) * t(10f64.powf(r.range(-9.0, -1.0))),
            _ => d.0 + (d.1 - d.0) * t(r.unit()),
        }
    }
    /// may the knots be inserted: strictly inside the domain, up to the degree, not next to another knot
    fn fits(&self, p: usize, k: &KnotVector<T>, d: (T, T), ins: &[T]) -> bool {
        let gap = (d.1 - d.0) * t(if SMALL { 1e-3 } else { 1e-7 });
        ins.iter().all(|u| {
            let near = |x: &T| (*x - *u).abs() < gap;
            !near(&d.0) && !near(&d.1) && *u > d.0 && *u < d.1
                && k.iter().chain(ins).all(|x| x == u || !near(x))
                && k.iter().chain(ins).filter(|x| *x == u).count() <= p
        })
    }
    /// is the range inside the domain and its pieces not next to nothing
    fn proper(&self, d: (T, T), a: T, b: T) -> bool {
        let gap = (d.1 - d.0) * t(if SMALL { 1e-3 } else { 1e-7 });
        let ok = |x: T| x == d.0 || x == d.1 || (x > d.0 + gap && x < d.1 - gap);
        ok(a) && ok(b) && if a < b { b - a >= gap } else { a - b >= gap && a != d.1 && b != d.0 }
    }
    fn arg(&mut self, k: &KnotVector<T>, d: (T, T)) -> T {
        if self.c.rng.bool(0.06) {
            // outside the domain
            return d.0 + (d.1 - d.0) * t(self.c.rng.range(-1.5, 2.5));
        }
        self.param(k, d)
    }
    fn tol(&mut self) -> Option<T> {
        let s = self.sc;
        match self.c.rng.int(0, 3) {
            0 | 1 => None,
            2 => Some(t(s * 10f64.powf(self.c.rng.range(-4.0, -1.0)))),
            _ => Some(t(s * 10f64.powf(self.c.rng.range(if SMALL { -5.0 } else { -8.0 }, 0.5)))),
        }
    }
    fn seed_object(&mut self) -> Result<Ob, Stop> {
        let sc = self.sc;
        let k = self.c.rng.int(0, 9);
        Ok(match k {
            0 => {
                let s = awkward(self.c, 2, sc);
                self.say(format!("2D {}", s.desc()));
                Ob::A(s.c2().cast())
            }
            1 | 2 => {
                let s = awkward(self.c, 3, sc);
                self.say(format!("3D {}", s.desc()));
                Ob::B(s.c3().cast())
            }
            3 | 4 => {
                let o: V = (0..2).map(|_| sc * self.c.rng.range(-0.5, 0.5)).collect();
                let d = std::mem::take(&mut self.c.desc);
                let rad = sc * self.c.rng.range(0.3, 1.0);
                let l = looped(self.c, rad, &o)?;
                self.c.desc = d;
                self.say(format!("loop kind {} {:?}", l.kind, l.rcs.iter().map(|r| (r.p, &r.k, &r.c)).collect::<Vec<_>>()));
                match l.cv {
                    Some(cv) => Ob::A(cv.cast()),
                    None => {
                        let cc: Cc2 = l.cc.spans().iter().map(|s| s.cast()).collect();
                        Ob::C(cc)
                    }
                }
            }
            5 => {
                let n = self.c.rng.int(3, 7);
                let pts: Vec<Point3<T>> = (0..n).map(|_| self.pt3()).collect();
                let p = self.c.rng.int(1, n - 1);
                let kind = self.c.rng.int(0, 3);
                self.say(format!("through {pts:?} degree {p} kind {kind}"));
                let cv = match kind {
                    0 => Cv3::try_interpolate(&pts, p).map_err(|_| Stop::Skip("not interpolated"))?,
                    1 => Cv3::try_periodic_interpolate(&pts, p, KnotStyle::Centripetal).map_err(|_| Stop::Skip("not interpolated"))?,
                    2 => Cv3::try_periodic(&pts, p).map_err(|_| Stop::Skip("not periodic"))?,
                    _ => Cv3::polyline(&pts, self.c.rng.bool(0.5)),
                };
                Ob::B(cv)
            }
            6 => {
                let (x, y, _) = frame3(&mut self.c.rng);
                let (x, y) = (v3(&x).cast::<T>(), v3(&y).cast::<T>());
                let o = self.pt3();
                let (a, b) = (self.c.rng.range(-6.0, 6.0), self.c.rng.range(-6.0, 6.0));
                let r = t(sc * self.c.rng.range(0.1, 1.0));
                self.say(format!("arc {o:?} {x:?} {y:?} {r} {a} {b}"));
                match Cv3::try_arc(&o, &x, &y, r, t(a), t(b)) {
                    Ok(c) => Ob::B(c),
                    Err(_) => Ob::B(Cv3::try_circle(&o, &x, &y, r).map_err(|_| Stop::Skip("no circle"))?),
                }
            }
            7 | 8 => {
                let d = std::mem::take(&mut self.c.desc);
                let h = if self.c.rng.bool(0.7) { Some(0.5) } else { None };
                let mut s = sspec(self.c, &SOpt { pmax: 3, extra: 3, height: h, ..Default::default() });
                self.c.desc = d;
                for r in s.pts.iter_mut().flatten() {
                    for x in r.iter_mut() {
                        *x *= 0.1 * sc;
                    }
                }
                if self.c.rng.bool(0.2) {
                    // one side shrunk to a point
                    let p = s.pts[0][0].clone();
                    for q in s.pts[0].iter_mut() {
                        *q = p.clone();
                    }
                }
                self.say(s.desc());
                Ob::S(s.s3().cast())
            }
            _ => {
                let (x, y, z) = frame3(&mut self.c.rng);
                let o = self.pt3();
                let r = t(sc * self.c.rng.range(0.1, 1.0));
                self.say(format!("sphere {o:?} {x:?} {y:?} {r}"));
                let _ = z;
                Ob::S(Sf::try_sphere(&o, &v3(&x).cast(), &v3(&y).cast(), r).map_err(|_| Stop::Skip("no sphere"))?)
            }
        })
    }
    fn add(&mut self, o: Ob) -> R {
        sound_ob(&o, "result")?;
        // (lofting rational curves interpolates their weights, which may turn negative)
        let positive = if let Ob::S(s) = &o { s.control_points().iter().flatten().all(|p| p.w > t(0.0)) } else { true };
        if positive && size(&o) <= 150 && degree(&o) <= 8 {
            if self.pool.len() < 10 {
                self.pool.push(o);
            } else {
                let i = self.c.rng.int(0, self.pool.len() - 1);
                self.pool[i] = o;
            }
        }
        Ok(())
    }

    /// a motion that sets two objects in general position: operands sharing their boundaries meet everywhere
    fn motion2(&mut self) -> nalgebra::Matrix3<T> {
        let a = self.c.rng.range(0.1, 6.2);
        let mut m = nalgebra::Matrix3::identity();
        m[(0, 0)] = t(a.cos());
        m[(1, 1)] = t(a.cos());
        m[(0, 1)] = t(-a.sin());
        m[(1, 0)] = t(a.sin());
        m[(0, 2)] = t(self.sc * self.c.rng.range(-0.3, 0.3));
        m[(1, 2)] = t(self.sc * self.c.rng.range(-0.3, 0.3));
        m
    }
    fn motion3(&mut self) -> nalgebra::Matrix4<T> {
        let (x, y, z) = frame3(&mut self.c.rng);
        let mut m = nalgebra::Matrix4::identity();
        for (j, v) in [x, y, z].iter().enumerate() {
            for i in 0..3 {
                m[(i, j)] = t(v[i]);
            }
            m[(j, 3)] = t(self.sc * self.c.rng.range(-0.3, 0.3));
        }
        m
    }
    fn curve2(&mut self) -> Option<Cv2> {
        let v: Vec<_> = self.pool.iter().filter_map(|o| if let Ob::A(c) = o { Some(c) } else { None }).collect();
        if v.is_empty() { None } else { Some((*self.c.rng.pick(&v)).clone()) }
    }
    fn curve3(&mut self) -> Option<Cv3> {
        let v: Vec<_> = self.pool.iter().filter_map(|o| if let Ob::B(c) = o { Some(c) } else { None }).collect();
        if v.is_empty() { None } else { Some((*self.c.rng.pick(&v)).clone()) }
    }
    fn surface(&mut self) -> Option<Sf> {
        let v: Vec<_> = self.pool.iter().filter_map(|o| if let Ob::S(c) = o { Some(c) } else { None }).collect();
        if v.is_empty() { None } else { Some((*self.c.rng.pick(&v)).clone()) }
    }
    fn iopt(&mut self) -> Option<CurveIntersectionSolverOptions<T>> {
        match self.c.rng.int(0, 2) {
            0 | 1 => None,
            _ => Some(CurveIntersectionSolverOptions::default().with_knot_domain_division(self.c.rng.int(2, 200)).with_minimum_distance(t(self.sc * 10f64.powf(self.c.rng.range(-5.0, -3.0))))),
        }
    }
}

macro_rules! curve_ops {
    ($name:ident, $C:ty, $dim:expr, $wrap:expr, $wrapc:expr, $point:ident, $mat:ty) => {
        fn $name(w: &mut World, i: usize, cv: $C) -> R {
            let d = cv.knots_domain();
            let k = cv.knots().clone();
            let op = w.c.rng.int(0, 23);
            let fin = |p: &[T], what: &str| all(p, what);
            match op {
                0 => {
                    let u = w.arg(&k, d);
                    w.say(format!("{i}.eval({u:?})"));
                    fin(cv.point_at(u).coords.as_slice(), "point_at")?;
                    fin(cv.tangent_at(u).as_slice(), "tangent_at")?;
                    fin(cv.second_derivative_at(u).as_slice(), "second_derivative_at")?;
                    let (p, q) = cv.point_tangent_at(u);
                    fin(p.coords.as_slice(), "point_tangent_at")?;
                    fin(q.as_slice(), "point_tangent_at")?;
                }
                1 => {
                    let u = w.arg(&k, d);
                    w.say(format!("{i}.try_add_knot({u:?})"));
                    let mut q = cv.clone();
                    let fits = w.fits(cv.degree(), &k, d, &[u]);
                    if q.try_add_knot(u).is_ok() {
                        if fits {
                            w.add($wrap(q))?;
                        }
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                2 => {
                    let n = w.c.rng.int(0, 5);
                    let v: Vec<T> = (0..n).map(|_| w.arg(&k, d)).collect();
                    w.say(format!("{i}.try_refine_knot({v:?})"));
                    let mut q = cv.clone();
                    let fits = w.fits(cv.degree(), &k, d, &v);
                    if q.try_refine_knot(v).is_ok() {
                        if fits {
                            w.add($wrap(q))?;
                        }
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                3 => {
                    let u = w.arg(&k, d);
                    let tol = w.tol();
                    w.say(format!("{i}.try_remove_knot({u:?}, {tol:?})"));
                    let mut q = cv.clone();
                    let inner = u > d.0 && u < d.1;
                    if q.try_remove_knot(u, tol).is_ok() {
                        if inner {
                            w.add($wrap(q))?;
                        }
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                4 => {
                    let p = (cv.degree() + w.c.rng.int(0, 3)).saturating_sub(w.c.rng.int(0, 1));
                    w.say(format!("{i}.try_elevate_degree({p})"));
                    if let Ok(q) = cv.try_elevate_degree(p) {
                        w.add($wrap(q))?;
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                5 => {
                    let u = w.arg(&k, d);
                    w.say(format!("{i}.try_split({u:?})"));
                    let fits = w.fits(usize::MAX, &k, d, &[u]);
                    if let Ok((a, b)) = cv.try_split(u) {
                        if fits {
                            w.add($wrap(a))?;
                            w.add($wrap(b))?;
                        }
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                6 => {
                    let (a, b) = (w.arg(&k, d), w.arg(&k, d));
                    w.say(format!("{i}.try_trim_range({a:?}, {b:?})"));
                    let proper = w.proper(d, a, b);
                    if let Ok(v) = cv.try_trim_range((a, b)) {
                        for q in v.into_iter().filter(|_| proper) {
                            w.add($wrap(q))?;
                        }
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                7 => {
                    w.say(format!("{i}.try_clamp()"));
                    let mut q = cv.clone();
                    if q.try_clamp().is_ok() {
                        w.add($wrap(q))?;
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                }
                8 => {
                    w.say(format!("{i}.try_decompose_bezier_segments()"));
                    if let Ok(v) = cv.try_decompose_bezier_segments() {
                        for q in &v {
                            sound(q, "segment")?;
                        }
                        if let Some(q) = v.into_iter().last() {
                            w.add($wrap(q))?;
                        }
                    }
                }
                9 => {
                    w.say(format!("{i}.normalize/invert"));
                    let mut q = cv.clone();
                    if w.c.rng.bool(0.5) {
                        q.normalize_knots();
                    }
                    if w.c.rng.bool(0.5) {
                        q = q.inverse();
                    }
                    w.add($wrap(q))?;
                }
                10 => {
                    let mut m = <$mat>::identity();
                    for r in 0..$dim {
                        for s in 0..=$dim {
                            let f = if s == $dim { w.sc } else { 1.5 };
                            m[(r, s)] = t(f * w.c.rng.range(-1.0, 1.0));
                        }
                    }
                    w.say(format!("{i}.transform({m:?})"));
                    let q = cv.transformed(&m);
                    w.add($wrap(q))?;
                }
                11 => {
                    w.say(format!("{i}.try_length()"));
                    if let Ok(l) = cv.try_length() {
                        all(&[l], "try_length")?;
                        chk!(l >= 0.0, "length", "length {l}");
                        let (x, tol) = (l * t(w.c.rng.range(-0.2, 1.3)), w.tol());
                        w.say(format!("{i}.try_parameter_at_length({x:?}, {tol:?})"));
                        if let Ok(u) = cv.try_parameter_at_length(x, tol) {
                            all(&[u], "try_parameter_at_length")?;
                        }
                        let n = w.c.rng.int(0, 9);
                        w.say(format!("{i}.try_divide_by_count({n})"));
                        if let Ok(v) = cv.try_divide_by_count(n) {
                            for p in &v {
                                all(&[p.parameter(), p.length()], "try_divide_by_count")?;
                            }
                        }
                        let x = l * t(w.c.rng.range(-0.1, 1.4));
                        w.say(format!("{i}.try_divide_by_length({x:?})"));
                        if let Ok(v) = cv.try_divide_by_length(x) {
                            for p in &v {
                                all(&[p.parameter(), p.length()], "try_divide_by_length")?;
                            }
                        }
                    }
                }
                12 => {
                    let p = w.$point();
                    w.say(format!("{i}.find_closest_parameter({p:?})"));
                    if let Ok(u) = cv.find_closest_parameter(&p) {
                        all(&[u], "find_closest_parameter")?;
                        let e = (d.1 - d.0) * t(1e-5);
                        chk!(u >= d.0 - e && u <= d.1 + e, "outside", "closest parameter {u} outside {d:?}");
                    } else {
                        w.c.ev("errors reported", 1);
                    }
                    if let Ok(q) = cv.find_closest_point(&p) {
                        all(q.coords.as_slice(), "find_closest_point")?;
                    }
                }
                13 => {
                    let tol = w.tol();
                    w.say(format!("{i}.tessellate({tol:?})"));
                    let v = cv.tessellate(tol);
                    w.c.ev("tessellated points", v.len() as u64);
                    for p in &v {
                        all(p.coords.as_slice(), "tessellate")?;
                    }
                }
                14 => {
                    w.say(format!("{i}.queries"));
                    let _ = (cv.is_closed(), cv.is_clamped(), cv.weights(), cv.dehomogenize(), cv.knots().multiplicity());
                    let b = BoundingBox::from(&cv);
                    all(b.min().as_slice(), "bounding box")?;
                    all(b.max().as_slice(), "bounding box")?;
                    let (n, a, e) = (w.c.rng.int(1, 9), w.param(&k, d), w.param(&k, d));
                    w.say(format!("{i}.sample_regular_range({a:?}, {e:?}, {n})"));
                    for p in cv.sample_regular_range(a, e, n) {
                        all(p.coords.as_slice(), "sample_regular_range")?;
                    }
                    let u = w.arg(&k, d);
                    let _ = (cv.knots().floor(u), cv.knots_constrain(u), cv.knots().find_knot_span_linear(cv.control_points().len() - 1, cv.degree(), u));
                    let m = w.c.rng.int(1, 9);
                    let sp = cv.knots().regulary_spaced_basis_functions(cv.degree(), m);
                    for b in sp.1 {
                        all(&b, "regulary_spaced_basis_functions")?;
                    }
                }
                15 => {
                    // divide down to the leaves
                    w.say(format!("{i}.bounding box tree"));
                    let tol = w.tol();
                    let mut st = vec![CurveBoundingBoxTree::new(&cv, tol)];
                    let mut n = 0;
                    while let Some(x) = st.pop() {
                        n += 1;
                        all(x.bounding_box().min().as_slice(), "bounding box")?;
                        if x.is_dividable() && n < 60 {
                            if let Ok((a, b)) = x.try_divide() {
                                st.push(a);
                                st.push(b);
                            }
                        }
                    }
                }
                16 => {
                    w.say(format!("{i}.serde"));
                    let js = serde_json::to_string(&cv).map_err(|e| Stop::V("serialize".into(), e.to_string()))?;
                    let q: $C = serde_json::from_str(&js).map_err(|e| Stop::V("deserialize".into(), format!("{e} {js}")))?;
                    w.add($wrap(q))?;
                }
                17 => {
                    // another precision and back
                    w.say(format!("{i}.cast"));
                    let q = cv.cast::<Other>().cast::<T>();
                    // knots next to one another may coincide in single precision
                    if knots_fit(q.knots(), q.degree(), "").is_ok() {
                        w.add($wrap(q))?;
                    }
                }
                18 => {
                    let o = { let v: Vec<$C> = w.pool.iter().filter_map(|o| <$C as Pick>::pick(o)).collect(); w.c.rng.pick(&v).clone() };
                    let o = if w.c.rng.bool(0.3) { cv.inverse() } else { o };
                    w.say(format!("{i}.compound"));
                    let cc = CompoundCurve::new(vec![cv.clone(), o]);
                    w.add($wrapc(cc))?;
                }
                _ => return special::$name(w, i, cv, op),
            }
            Ok(())
        }
    };
}
trait Pick: Sized {
    fn pick(o: &Ob) -> Option<Self>;
}
impl Pick for Cv2 {
    fn pick(o: &Ob) -> Option<Self> {
        if let Ob::A(c) = o { Some(c.clone()) } else { None }
    }
}
impl Pick for Cv3 {
    fn pick(o: &Ob) -> Option<Self> {
        if let Ob::B(c) = o { Some(c.clone()) } else { None }
    }
}
curve_ops!(flat, Cv2, 2, Ob::A, Ob::C, pt2, nalgebra::Matrix3<T>);
curve_ops!(spatial, Cv3, 3, Ob::B, Ob::D, pt3, nalgebra::Matrix4<T>);

mod special {
    use super::*;
    pub fn flat(w: &mut World, i: usize, cv: Cv2, op: usize) -> R {
        match op {
            19 => {
                let o = w.curve2().unwrap_or(cv.clone()).transformed(&w.motion2());
                let opt = w.iopt();
                w.say(format!("{i}.find_intersections({opt:?})"));
                if let Ok(v) = cv.find_intersections(&o, opt) {
                    w.c.ev("intersections", v.len() as u64);
                    for x in &v {
                        let ((p, a), (q, b)) = x.clone().as_tuple();
                        all(&[a, b], "intersection")?;
                        all(p.coords.as_slice(), "intersection")?;
                        all(q.coords.as_slice(), "intersection")?;
                    }
                } else {
                    w.c.ev("errors reported", 1);
                }
            }
            20 => {
                let p = if w.c.rng.bool(0.3) { cv.point_at(w.param(cv.knots(), cv.knots_domain())) } else { w.pt2() };
                w.say(format!("{i}.contains({p:?})"));
                let opt = w.iopt();
                if cv.contains(&p, opt).is_err() {
                    w.c.ev("errors reported", 1);
                }
            }
            21 | 22 => {
                let o = w.curve2().unwrap_or(cv.clone()).transformed(&w.motion2());
                let op = w.c.rng.int(0, 2);
                w.say(format!("{i}.boolean {op} (0 union, 1 intersection, 2 difference)"));
                let opt = w.iopt();
                match match op { 0 => cv.union(&o, opt), 1 => cv.intersection(&o, opt), _ => cv.difference(&o, opt) } {
                    Ok(r) => {
                        for r in r.into_regions() {
                            w.add(Ob::R(r))?;
                        }
                    }
                    Err(_) => w.c.ev("errors reported", 1),
                }
            }
            _ => {
                w.say(format!("{i}.elevate_dimension"));
                w.add(Ob::B(cv.elevate_dimension()))?;
            }
        }
        Ok(())
    }
    pub fn spatial(w: &mut World, i: usize, cv: Cv3, op: usize) -> R {
        let (k, d) = (cv.knots().clone(), cv.knots_domain());
        match op {
            19 => {
                let n = w.c.rng.int(0, 12);
                let v: Vec<T> = (0..n).map(|_| w.param(&k, d)).collect();
                w.say(format!("{i}.compute_frenet_frames({v:?})"));
                let fr = cv.compute_frenet_frames(&v);
                for f in &fr {
                    all(f.position().coords.as_slice(), "frame position")?;
                    if v.iter().all(|u| cv.tangent_at(*u).norm() > 0.0) {
                        for x in [f.tangent(), f.normal(), f.binormal()] {
                            all(x.as_slice(), "frame axis")?;
                        }
                    }
                }
            }
            20 => {
                let v = w.dir3() * t(w.sc);
                w.say(format!("{i}.extrude({v:?})"));
                w.add(Ob::S(Sf::extrude(&cv, &v)))?;
            }
            21 => {
                let (o, x) = (w.pt3(), w.dir3());
                let th = t(w.c.rng.range(-6.5, 6.5));
                w.say(format!("{i}.revolve({o:?} {x:?} {th})"));
                match Sf::try_revolve(&cv, &o, &x, th) {
                    Ok(s) => w.add(Ob::S(s))?,
                    Err(_) => w.c.ev("errors reported", 1),
                }
            }
            22 => {
                let o = w.curve3().unwrap_or(cv.clone()).transformed(&w.motion3());
                let q = if w.c.rng.bool(0.5) { None } else { Some(w.c.rng.int(1, 4)) };
                if w.c.rng.bool(0.5) && o.control_points().len() < 12 {
                    w.say(format!("{i}.sweep({q:?})"));
                    // a rail needs a direction at every sample
                    let (s, e) = o.knots_domain();
                    let n = o.control_points().len() * 2;
                    if !(0..n).all(|j| o.tangent_at(s + (e - s) * t(j as f64 / (n - 1) as f64)).norm() > t(1e-6 * w.sc)) {
                        return Ok(());
                    }
                    match Sf::try_sweep(&cv, &o, q) {
                        Ok(s) => w.add(Ob::S(s))?,
                        Err(_) => w.c.ev("errors reported", 1),
                    }
                } else {
                    w.say(format!("{i}.loft({q:?})"));
                    let n = w.c.rng.int(0, 2);
                    let mut v = vec![cv, o];
                    for _ in 0..n {
                        v.push(w.curve3().unwrap());
                    }
                    match Sf::try_loft(&v, q) {
                        Ok(s) => w.add(Ob::S(s))?,
                        Err(_) => w.c.ev("errors reported", 1),
                    }
                }
            }
            _ => {
                let Some(s) = w.surface() else { return Ok(()) };
                if cv.degree() > 4 || cv.control_points().len() > 12 || s.control_points().iter().flatten().count() > 60 {
                    return Ok(()); // takes too long
                }
                let s = s.transformed(&w.motion3());
                w.say(format!("surface x {i}.find_intersections"));
                match s.find_intersections(&cv, None) {
                    Ok(v) => {
                        for x in &v {
                            let ((p, (a, b)), (q, e)) = x.clone().as_tuple();
                            all(&[a, b, e], "surface intersection")?;
                            all(p.coords.as_slice(), "surface intersection")?;
                            all(q.coords.as_slice(), "surface intersection")?;
                        }
                        w.c.ev("surface intersections", v.len() as u64);
                    }
                    Err(_) => w.c.ev("errors reported", 1),
                }
            }
        }
        Ok(())
    }
}

fn compound2(w: &mut World, i: usize, cc: Cc2) -> R {
    let d = (cc.spans()[0].knots_domain().0, cc.spans().last().unwrap().knots_domain().1);
    let k = cc.spans()[w.c.rng.int(0, cc.spans().len() - 1)].knots().clone();
    match w.c.rng.int(0, 11) {
        0 => {
            let u = w.arg(&k, d);
            w.say(format!("{i}.point_at({u:?})"));
            if let Some(p) = cc.point_at(u) {
                all(p.coords.as_slice(), "point_at")?;
            }
        }
        1 => {
            w.say(format!("{i}.compound queries"));
            let _ = cc.is_closed();
            if let Ok(l) = cc.try_length() {
                all(&[l], "try_length")?;
            }
            let b = BoundingBox::from(&cc);
            all(b.min().as_slice(), "bounding box")?;
        }
        2 => {
            let p = w.pt2();
            w.say(format!("{i}.find_closest_point({p:?})"));
            if let Ok(q) = cc.find_closest_point(&p) {
                all(q.coords.as_slice(), "find_closest_point")?;
            }
        }
        3 => {
            let tol = w.tol();
            w.say(format!("{i}.tessellate({tol:?})"));
            for p in cc.tessellate(tol) {
                all(p.coords.as_slice(), "tessellate")?;
            }
        }
        4 => {
            let (a, b) = (w.arg(&k, d), w.arg(&k, d));
            w.say(format!("{i}.try_trim_range({a:?}, {b:?})"));
            let proper = w.proper(d, a, b);
            if let Ok(v) = cc.try_trim_range((a, b)) {
                for q in v.into_iter().filter(|_| proper) {
                    w.add(Ob::A(q))?;
                }
            } else {
                w.c.ev("errors reported", 1);
            }
        }
        5 => {
            w.say(format!("{i}.inverse()"));
            w.add(Ob::C(cc.inverse()))?;
        }
        6 => {
            let p = w.pt2();
            w.say(format!("{i}.contains({p:?})"));
            let opt = w.iopt();
            let _ = cc.contains(&p, opt);
        }
        7 | 8 => {
            let v: Vec<Ob> = w.pool.iter().filter(|o| matches!(o, Ob::A(_) | Ob::C(_) | Ob::R(_))).cloned().collect();
            let m = w.motion2();
            let o = match w.c.rng.pick(&v) {
                Ob::A(x) => Ob::A(x.transformed(&m)),
                Ob::C(x) => Ob::C(x.transformed(&m)),
                Ob::R(x) => Ob::R(x.transformed(&m)),
                _ => unreachable!(),
            };
            let op = w.c.rng.int(0, 2);
            let opt = w.iopt();
            w.say(format!("{i}.boolean {op} (0 union, 1 intersection, 2 difference)"));
            let r = match &o {
                Ob::A(o) => match op { 0 => cc.union(o, opt), 1 => cc.intersection(o, opt), _ => cc.difference(o, opt) }.map(|r| r.into_regions()),
                Ob::C(o) => match op { 0 => cc.union(o, opt), 1 => cc.intersection(o, opt), _ => cc.difference(o, opt) }.map(|r| r.into_regions()),
                Ob::R(o) => {
                    let r = Region::from(cc.clone());
                    match op { 0 => r.union(o, opt), 1 => r.intersection(o, opt), _ => r.difference(o, opt) }.map(|r| r.into_regions())
                }
                _ => unreachable!(),
            };
            match r {
                Ok(v) => {
                    for r in v {
                        w.add(Ob::R(r))?;
                    }
                }
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        9 => {
            let o = w.curve2().unwrap_or(cc.spans()[0].clone()).transformed(&w.motion2());
            let opt = w.iopt();
            w.say(format!("{i}.find_intersections"));
            if let Ok(v) = cc.find_intersections(&o, opt) {
                for x in &v {
                    all(&[x.a_parameter(), x.b_parameter()], "intersection")?;
                }
            }
        }
        10 => {
            w.say(format!("{i}.serde"));
            let js = serde_json::to_string(&cc).map_err(|e| Stop::V("serialize".into(), e.to_string()))?;
            let q: Cc2 = serde_json::from_str(&js).map_err(|e| Stop::V("deserialize".into(), format!("{e} {js}")))?;
            w.add(Ob::C(q))?;
        }
        _ => {
            let j = w.c.rng.int(0, cc.spans().len() - 1);
            w.say(format!("{i}.span {j}"));
            w.add(Ob::A(cc.spans()[j].clone()))?;
            w.add(Ob::R(Region::from(cc)))?;
        }
    }
    Ok(())
}

fn compound3(w: &mut World, i: usize, cc: Cc3) -> R {
    let d = (cc.spans()[0].knots_domain().0, cc.spans().last().unwrap().knots_domain().1);
    let k = cc.spans()[w.c.rng.int(0, cc.spans().len() - 1)].knots().clone();
    match w.c.rng.int(0, 4) {
        0 => {
            let u = w.arg(&k, d);
            w.say(format!("{i}.point_at({u:?})"));
            if let Some(p) = cc.point_at(u) {
                all(p.coords.as_slice(), "point_at")?;
            }
        }
        1 => {
            w.say(format!("{i}.compound queries"));
            let _ = cc.is_closed();
            if let Ok(l) = cc.try_length() {
                all(&[l], "try_length")?;
            }
            let p = w.pt3();
            w.say(format!("{i}.find_closest_point({p:?})"));
            if let Ok(q) = cc.find_closest_point(&p) {
                all(q.coords.as_slice(), "find_closest_point")?;
            }
        }
        2 => {
            let (a, b) = (w.arg(&k, d), w.arg(&k, d));
            w.say(format!("{i}.try_trim_range({a:?}, {b:?})"));
            let proper = w.proper(d, a, b);
            if let Ok(v) = cc.try_trim_range((a, b)) {
                for q in v.into_iter().filter(|_| proper) {
                    w.add(Ob::B(q))?;
                }
            }
        }
        3 => {
            w.say(format!("{i}.inverse()"));
            w.add(Ob::D(cc.inverse()))?;
        }
        _ => {
            let tol = w.tol();
            w.say(format!("{i}.tessellate({tol:?})"));
            for p in cc.tessellate(tol) {
                all(p.coords.as_slice(), "tessellate")?;
            }
        }
    }
    Ok(())
}

fn region(w: &mut World, i: usize, r: Region<T>) -> R {
    match w.c.rng.int(0, 4) {
        0 => {
            let tol = w.tol();
            w.say(format!("{i}.tessellate({tol:?})"));
            match r.tessellate(tol) {
                Ok(m) => {
                    for p in m.vertices() {
                        all(p.coords.as_slice(), "tessellate")?;
                    }
                    chk!(m.faces().iter().flatten().all(|f| *f < m.vertices().len()), "face-index", "region faces");
                    all(&[m.area()], "area")?;
                }
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        1 | 2 => {
            let v: Vec<Ob> = w.pool.iter().filter(|o| matches!(o, Ob::A(_) | Ob::C(_) | Ob::R(_))).cloned().collect();
            let m = w.motion2();
            let o = match w.c.rng.pick(&v) {
                Ob::A(x) => Ob::A(x.transformed(&m)),
                Ob::C(x) => Ob::C(x.transformed(&m)),
                Ob::R(x) => Ob::R(x.transformed(&m)),
                _ => unreachable!(),
            };
            let op = w.c.rng.int(0, 2);
            let opt = w.iopt();
            w.say(format!("{i}.boolean {op} (0 union, 1 intersection, 2 difference)"));
            let r = match &o {
                Ob::A(o) => match op { 0 => r.union(o, opt), 1 => r.intersection(o, opt), _ => r.difference(o, opt) }.map(|r| r.into_regions()),
                Ob::C(o) => match op { 0 => r.union(o, opt), 1 => r.intersection(o, opt), _ => r.difference(o, opt) }.map(|r| r.into_regions()),
                Ob::R(o) => match op { 0 => r.union(o, opt), 1 => r.intersection(o, opt), _ => r.difference(o, opt) }.map(|r| r.into_regions()),
                _ => unreachable!(),
            };
            match r {
                Ok(v) => {
                    for r in v {
                        w.add(Ob::R(r))?;
                    }
                }
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        _ => {
            w.say(format!("{i}.exterior"));
            w.add(Ob::C(r.exterior().clone()))?;
        }
    }
    Ok(())
}

fn mesh(m: &SurfaceTessellation<T, Const<4>>, what: &str) -> R {
    let n = m.points().len();
    chk!(m.normals().len() == n && m.uvs().len() == n, "mesh-arrays", "{what}: {n} points, {} normals, {} parameters", m.normals().len(), m.uvs().len());
    chk!(m.faces().iter().flatten().all(|f| *f < n), "face-index", "{what}: a face refers to a missing point");
    for ((p, q), u) in m.points().iter().zip(m.normals()).zip(m.uvs()) {
        all(p.coords.as_slice(), what)?;
        all(q.as_slice(), what)?;
        all(u.as_slice(), what)?;
    }
    Ok(())
}
fn topt(w: &mut World) -> Option<AdaptiveTessellationOptions<T>> {
    match w.c.rng.int(0, 2) {
        0 => None,
        _ => Some(AdaptiveTessellationOptions {
            norm_tolerance: t(10f64.powf(w.c.rng.range(-4.0, -0.5))),
            min_divs_u: w.c.rng.int(0, 3),
            min_divs_v: w.c.rng.int(0, 3),
            min_depth: w.c.rng.int(0, 2),
            max_depth: w.c.rng.int(0, 5),
        }),
    }
}
fn surface(w: &mut World, i: usize, s: Sf) -> R {
    let (du, dv) = s.knots_domain();
    let (ku, kv) = (s.u_knots().clone(), s.v_knots().clone());
    let dir = *w.c.rng.pick(&[UVDirection::U, UVDirection::V]);
    let (kd, dd) = if dir == UVDirection::U { (ku.clone(), du) } else { (kv.clone(), dv) };
    match w.c.rng.int(0, 12) {
        0 => {
            let (u, v) = (w.arg(&ku, du), w.arg(&kv, dv));
            w.say(format!("{i}.surface eval({u:?}, {v:?})"));
            all(s.point_at(u, v).coords.as_slice(), "point_at")?;
            all(s.normal_at(u, v).as_slice(), "normal_at")?;
            let n = w.c.rng.int(0, 4);
            for x in s.rational_derivatives(u, v, n).iter().flatten() {
                all(x.as_slice(), "rational_derivatives")?;
            }
        }
        1 => {
            let u = w.arg(&kd, dd);
            w.say(format!("{i}.try_isocurve({u:?}, {dir:?})"));
            match s.try_isocurve(u, dir) {
                Ok(c) => w.add(Ob::B(c))?,
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        2 => {
            w.say(format!("{i}.try_boundary_curves()"));
            if let Ok(v) = s.try_boundary_curves() {
                for c in v {
                    w.add(Ob::B(c))?;
                }
            }
        }
        3 => {
            let n = w.c.rng.int(0, 3);
            let v: Vec<T> = (0..n).map(|_| w.arg(&kd, dd)).collect();
            w.say(format!("{i}.surface try_refine_knot({v:?}, {dir:?})"));
            let mut q = s.clone();
            let fits = w.fits(if dir == UVDirection::U { s.u_degree() } else { s.v_degree() }, &kd, dd, &v);
            match q.try_refine_knot(v, dir) {
                Ok(()) if fits => w.add(Ob::S(q))?,
                Ok(()) => {}
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        4 => {
            let u = w.arg(&kd, dd);
            w.say(format!("{i}.surface try_split({u:?}, {dir:?})"));
            match s.try_split(SplitSurfaceOption::new(u, dir)) {
                Ok((a, b)) => {
                    if w.fits(usize::MAX, &kd, dd, &[u]) {
                        w.add(Ob::S(a))?;
                        w.add(Ob::S(b))?;
                    }
                }
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        5 => {
            w.say(format!("{i}.surface flip/invert"));
            let q = match w.c.rng.int(0, 3) {
                0 => s.flip(FlipDirection::U),
                1 => s.flip(FlipDirection::V),
                2 => s.flip(FlipDirection::UV),
                _ => s.inverse(),
            };
            w.add(Ob::S(q))?;
        }
        6 => {
            let mut m = nalgebra::Matrix4::<T>::identity();
            for r in 0..3 {
                for q in 0..4 {
                    m[(r, q)] = t(if q == 3 { w.sc } else { 1.5 } * w.c.rng.range(-1.0, 1.0));
                }
            }
            w.say(format!("{i}.surface transform({m:?})"));
            w.add(Ob::S(s.transformed(&m)))?;
        }
        7 => {
            let p = w.pt3();
            w.say(format!("{i}.surface find_closest_parameter({p:?})"));
            match s.find_closest_parameter(&p) {
                Ok((u, v)) => all(&[u, v], "find_closest_parameter")?,
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        8 => {
            let o = topt(w);
            w.say(format!("{i}.surface tessellate({o:?})"));
            let m = s.tessellate(o);
            w.c.ev("mesh faces", m.faces().len() as u64);
            mesh(&m, "tessellate")?;
        }
        9 => {
            let (a, b) = (w.c.rng.int(1, 6), w.c.rng.int(1, 6));
            w.say(format!("{i}.regular_tessellate({a}, {b})"));
            let m = s.regular_tessellate(a, b);
            mesh(&m, "regular_tessellate")?;
            let n = w.c.rng.int(0, 3);
            for x in s.regular_sample_rational_derivatives(a, b, n).iter().flatten().flatten().flatten() {
                all(x.as_slice(), "regular_sample_rational_derivatives")?;
            }
        }
        10 => {
            let mut side = |w: &mut World, k: &KnotVector<T>, d: (T, T)| {
                let n = w.c.rng.int(0, 5);
                let mut v: Vec<T> = (0..n).map(|_| w.param(k, d)).collect();
                v.push(d.0);
                v.push(d.1);
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                v.dedup();
                v
            };
            let mut b = BoundaryConstraints::default();
            if w.c.rng.bool(0.5) {
                b = b.with_u_parameters_at_v_min(side(w, &ku, du));
            }
            if w.c.rng.bool(0.5) {
                b = b.with_u_parameters_at_v_max(side(w, &ku, du));
            }
            if w.c.rng.bool(0.5) {
                b = b.with_v_parameters_at_u_min(side(w, &kv, dv));
            }
            if w.c.rng.bool(0.5) {
                b = b.with_v_parameters_at_u_max(side(w, &kv, dv));
            }
            let o = topt(w);
            w.say(format!("{i}.surface constrained_tessellate({b:?}, {o:?})"));
            mesh(&s.constrained_tessellate(b, o), "constrained_tessellate")?;
        }
        11 => {
            w.say(format!("{i}.surface serde/cast"));
            let js = serde_json::to_string(&s).map_err(|e| Stop::V("serialize".into(), e.to_string()))?;
            let q: Sf = serde_json::from_str(&js).map_err(|e| Stop::V("deserialize".into(), format!("{e} {js}")))?;
            let q: Sf = q.cast::<Other>().cast::<T>();
            if knots_fit(q.u_knots(), q.u_degree(), "").and(knots_fit(q.v_knots(), q.v_degree(), "")).is_ok() {
                w.add(Ob::S(q))?;
            }
        }
        _ => {
            // trimmed by loops in its parameter space
            let o = vec![(du.0 as f64 + du.1 as f64) / 2.0, (dv.0 as f64 + dv.1 as f64) / 2.0];
            let r = ((du.1 - du.0) as f64).min((dv.1 - dv.0) as f64) * 0.49;
            let d = std::mem::take(&mut w.c.desc);
            let e = looped(w.c, r, &o);
            w.c.desc = d;
            let e = e?;
            let z = match e.cv {
                Some(cv) if w.c.rng.bool(0.5) => TrimmedSurface::new(s, Some(cv.cast()), vec![]),
                Some(cv) => TrimmedSurface::new(s, None, vec![cv.cast()]),
                None => return Ok(()),
            };
            w.say(format!("{i}.trimmed {:?}", e.rcs.iter().map(|r| (r.p, &r.k, &r.c)).collect::<Vec<_>>()));
            w.add(Ob::Z(z))?;
        }
    }
    Ok(())
}
fn trimmed(w: &mut World, i: usize, z: TrimmedSurface<T>) -> R {
    match w.c.rng.int(0, 3) {
        0 | 1 => {
            let o = topt(w);
            w.say(format!("{i}.trimmed tessellate({o:?})"));
            match z.tessellate(o) {
                Ok(m) => {
                    w.c.ev("trimmed faces", m.faces().len() as u64);
                    mesh(&m, "trimmed tessellate")?;
                }
                Err(_) => w.c.ev("errors reported", 1),
            }
        }
        2 => {
            w.say(format!("{i}.trimmed inverse"));
            w.add(Ob::Z(z.inverse()))?;
        }
        _ => {
            w.say(format!("{i}.trimmed serde"));
            let js = serde_json::to_string(&z).map_err(|e| Stop::V("serialize".into(), e.to_string()))?;
            let q: TrimmedSurface<T> = serde_json::from_str(&js).map_err(|e| Stop::V("deserialize".into(), format!("{e} {js}")))?;
            w.add(Ob::Z(q))?;
        }
    }
    Ok(())
}

pub fn history(c: &mut Ctx) -> R {
    let sc = if SMALL { *c.rng.pick(&[1.0, 1.0, 10.0, 0.1]) } else { *c.rng.pick(&[1.0, 1.0, 10.0, 1e-3, 1e4]) };
    let mut w = World { c, pool: vec![], log: vec![format!("scale {sc}")], sc };
    let n = w.c.rng.int(1, 3);
    for _ in 0..n {
        let o = w.seed_object()?;
        // points interpolated one upon another may have too many equal parameters
        if sound_ob(&o, "seed").is_err() {
            return Err(Stop::Skip("degenerate seed"));
        }
        w.add(o)?;
    }
    if w.pool.is_empty() {
        return Err(Stop::Skip("no object"));
    }
    let steps = w.c.rng.int(3, if w.c.thorough { 25 } else { 12 });
    let mut sig = vec![];
    for _ in 0..steps {
        let i = w.c.rng.int(0, w.pool.len() - 1);
        let o = w.pool[i].clone();
        let before = w.log.len();
        let t0 = crate::mon::own_cpu();
        let kind = match &o {
            Ob::A(_) => 0u64,
            Ob::B(_) => 1,
            Ob::C(_) => 2,
            Ob::D(_) => 3,
            Ob::R(_) => 4,
            Ob::S(_) => 5,
            Ob::Z(_) => 6,
        };
        match o {
            Ob::A(c) => flat(&mut w, i, c)?,
            Ob::B(c) => spatial(&mut w, i, c)?,
            Ob::C(c) if !c.spans().is_empty() => compound2(&mut w, i, c)?,
            Ob::D(c) if !c.spans().is_empty() => compound3(&mut w, i, c)?,
            Ob::R(r) => region(&mut w, i, r)?,
            Ob::S(s) => surface(&mut w, i, s)?,
            Ob::Z(z) => trimmed(&mut w, i, z)?,
            _ => {}
        }
        let dt = crate::mon::own_cpu() - t0;
        w.c.err("CPU seconds of an operation", dt);
        w.c.ev("operations", 1);
        let name: String = w.log[before..].last().map(|s| s.chars().skip_while(|c| c.is_ascii_digit()).take_while(|c| *c != '(').collect()).unwrap_or_default();
        sig.push(crate::rng::hash_str(&name) ^ kind);
        if sig.len() >= 2 {
            let l = sig.len();
            w.c.shape(&[sig[l - 2], sig[l - 1], SMALL as u64]);
        }
    }
    Ok(())
}
