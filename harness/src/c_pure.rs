//! C38: operations have no side effects: the same operation on the same objects gives the same
//! result every time and from several threads at once, leaves the objects as they were, and
//! gives back the memory it took.
use crate::c_region::*;
use crate::gen::*;
use crate::mon::*;
use crate::{chk, rng};
use curvo::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{Debug, Write};

/// allocator that counts the bytes a thread holds
pub struct Counting;
thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + l.size() as isize));
        let _ = TAKEN.try_with(|h| h.set(h.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HELD.try_with(|h| h.set(h.get() - l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + l.size() as isize));
        let _ = TAKEN.try_with(|h| h.set(h.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + n as isize - l.size() as isize));
        System.realloc(p, l, n)
    }
}
fn held() -> isize {
    HELD.with(|h| h.get())
}

struct Digest(u64);
impl Write for Digest {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
/// a digest of everything a value shows, to the last bit of its numbers
fn sig<T: Debug>(x: &T) -> u64 {
    let mut d = Digest(0xcbf29ce484222325);
    let _ = write!(d, "{x:?}");
    d.0
}

type Op<'a> = (&'static str, Box<dyn Fn() -> u64 + Sync + Send + 'a>);

fn judge(c: &mut Ctx, ops: Vec<Op>, state: &dyn Fn() -> u64) -> R {
    let seed = c.rng.next();
    for (name, op) in &ops {
        c.ev(name, 1);
        let before = state();
        // on its own thread, twice
        // (only what flattens curves or searches bounding-box trees may depend on the library's random choices)
        let random = ["intersection", "union", "difference", "compound", "region", "trimmed", "curve closest", "curve tessellation"].iter().any(|k| name.contains(k));
        let run = |i: u64| {
            rng::set_entropy(if random { seed } else { seed ^ i });
            op()
        };
        let quiet = |r: std::thread::Result<u64>| r.map_err(|_| Stop::Skip("panicked (see C36)"));
        let (first, second, held) = std::thread::scope(|s| {
            let a = s.spawn(|| run(1)).join();
            let b = s
                .spawn(|| {
                    let r = run(2);
                    // caches and lazily built tables are in place now
                    let h = held();
                    let q = op();
                    std::hint::black_box(q);
                    let h2 = held();
                    op();
                    let h3 = held();
                    (r, (h2 - h, h3 - h2))
                })
                .join();
            match (a, b) {
                (Ok(a), Ok((b, h))) => Ok((a, b, h)),
                _ => Err(Stop::Skip("panicked (see C36)")),
            }
        })?;
        chk!(first == second, &format!("repeat-{name}"), "{name}: two runs on the same objects{} differ", if random { " with the same random choices" } else { "" });
        chk!(!(held.0 > 0 && held.1 > 0), &format!("memory-{name}"), "{name}: {} and {} bytes are still held after two more runs", held.0, held.1);
        chk!(state() == before, &format!("changed-{name}"), "{name}: the operands changed");
        // from several threads at once
        let rs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (3..6).map(|i| { let run = &run; s.spawn(move || run(i)) }).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for r in rs {
            let r = quiet(r)?;
            chk!(r == first, &format!("threads-{name}"), "{name}: the result differs when several threads run it at once");
            c.ev("concurrent runs", 1);
        }
        chk!(state() == before, &format!("changed-{name}"), "{name}: the operands changed");
    }
    Ok(())
}

fn curves(c: &mut Ctx) -> R {
    let s = spec(&mut c.rng, &SpecOpt { dim: 3, scale: 1.0, extra: 6, pmax: 4, ..Default::default() });
    let z = spec(&mut c.rng, &SpecOpt { dim: 3, scale: 1.0, extra: 4, pmax: 3, ..Default::default() });
    c.describe(format!("{} / {}", s.desc(), z.desc()));
    c.shape(&[s.p as u64, s.pts.len() as u64, s.style as u64, s.rational as u64, z.p as u64, z.pts.len() as u64]);
    let (a, b) = (s.c3(), z.c3());
    let d = a.knots_domain();
    let u = d.0 + (d.1 - d.0) * c.rng.range(0.1, 0.9);
    let v = d.0 + (d.1 - d.0) * c.rng.range(0.1, 0.9);
    let q = p3(&(0..3).map(|_| c.rng.range(-1.0, 1.0)).collect::<Vec<_>>());
    let (ra, rb) = (&a, &b);
    let ops: Vec<Op> = vec![
        ("curve evaluation", Box::new(move || sig(&(ra.point_at(u), ra.tangent_at(v), ra.second_derivative_at(u))))),
        ("curve split and trim", Box::new(move || sig(&(ra.try_split(u).ok(), ra.try_trim_range((u, v)).ok())))),
        ("curve elevation", Box::new(move || sig(&ra.try_elevate_degree(ra.degree() + 2).ok()))),
        ("curve refinement", Box::new(move || {
            let mut x = ra.clone();
            let r = x.try_refine_knot(vec![u, v]).is_ok();
            let y = x.try_remove_knot(u, None).ok();
            sig(&(x, r, y))
        })),
        ("curve bezier segments", Box::new(move || sig(&ra.try_decompose_bezier_segments().ok()))),
        ("curve length", Box::new(move || {
            let l = ra.try_length().ok();
            sig(&(l, l.and_then(|l| ra.try_parameter_at_length(l * 0.3, None).ok()), ra.try_divide_by_count(5).ok().map(|v| v.iter().map(|p| (p.parameter(), p.length())).collect::<Vec<_>>())))
        })),
        ("curve closest", Box::new(move || sig(&ra.find_closest_parameter(&q).ok()))),
        ("curve tessellation", Box::new(move || sig(&ra.tessellate(Some(1e-3))))),
        ("curve intersection", Box::new(move || sig(&ra.find_intersections(rb, None).ok().map(|v| v.iter().map(|x| (x.a_parameter(), x.b_parameter())).collect::<Vec<_>>())))),
        ("loft", Box::new(move || sig(&NurbsSurface::try_loft(&[ra.clone(), rb.clone()], Some(1)).ok()))),
        ("interpolation", Box::new(move || {
            let pts: Vec<_> = ra.dehomogenized_control_points();
            sig(&(NurbsCurve3D::try_interpolate(&pts, 3).ok(), NurbsCurve3D::try_periodic_interpolate(&pts, 3, KnotStyle::Centripetal).ok()))
        })),
        ("sweep and revolve", Box::new(move || {
            let z = nalgebra::Vector3::new(0.3, 0.4, 1.0);
            sig(&(NurbsSurface3D::extrude(ra, &z), NurbsSurface3D::try_revolve(ra, &q, &z.normalize(), 2.0).ok(), NurbsSurface3D::try_sweep(rb, ra, Some(2)).ok()))
        })),
        ("frames", Box::new(move || sig(&ra.compute_frenet_frames(&[u, v]).iter().map(|f| (*f.position(), *f.tangent(), *f.normal())).collect::<Vec<_>>()))),
    ];
    judge(c, ops, &|| sig(&(ra, rb)))
}

fn planar(c: &mut Ctx) -> R {
    let o = vec![0.0, 0.0];
    let k = vec![c.rng.range(-0.6, 0.6), c.rng.range(-0.6, 0.6)];
    let (d, mut e) = (std::mem::take(&mut c.desc), String::new());
    let a = looped(c, 1.0, &o)?;
    let b = looped(c, 0.8, &k)?;
    std::mem::swap(&mut e, &mut c.desc);
    c.desc = d;
    c.describe(format!("{} + kinds {} {} {e}", k[0], a.kind, b.kind));
    c.shape(&[a.kind as u64, b.kind as u64, a.rcs.len() as u64, b.rcs.len() as u64]);
    let (ca, cb) = (&a.cc, &b.cc);
    let (r, s) = (Region::from(a.cc.clone()), Region::from(b.cc.clone()));
    let (r, s) = (&r, &s);
    let q = p2(&[c.rng.range(-1.0, 1.0), c.rng.range(-1.0, 1.0)]);
    let regions = |v: Vec<Region<f64>>| sig(&v.iter().map(|r| (r.exterior().clone(), r.interiors().to_vec())).collect::<Vec<_>>());
    let ops: Vec<Op> = vec![
        ("compound intersection", Box::new(move || sig(&ca.find_intersections(cb, None).ok().map(|v| v.iter().map(|x| (x.a_parameter(), x.b_parameter())).collect::<Vec<_>>())))),
        ("compound containment", Box::new(move || sig(&ca.contains(&q, None).ok()))),
        ("compound closest", Box::new(move || sig(&ca.find_closest_point(&q).ok()))),
        ("union", Box::new(move || ca.union(cb, None).map(|x| regions(x.into_regions())).unwrap_or(0))),
        ("intersection", Box::new(move || ca.intersection(cb, None).map(|x| regions(x.into_regions())).unwrap_or(0))),
        ("difference", Box::new(move || ca.difference(cb, None).map(|x| regions(x.into_regions())).unwrap_or(0))),
        ("region union", Box::new(move || r.union(s, None).map(|x| regions(x.into_regions())).unwrap_or(0))),
        ("region difference", Box::new(move || r.difference(s, None).map(|x| regions(x.into_regions())).unwrap_or(0))),
        ("region triangulation", Box::new(move || r.tessellate(None).map(|m| sig(&(m.vertices(), m.faces()))).unwrap_or(0))),
        ("compound inverse", Box::new(move || sig(&ca.inverse()))),
    ];
    judge(c, ops, &|| sig(&(ca, cb, r.exterior(), s.exterior())))
}

fn surfaces(c: &mut Ctx) -> R {
    let d = std::mem::take(&mut c.desc);
    let sp = sspec(c, &SOpt { pmax: 3, extra: 3, height: Some(0.5), ..Default::default() });
    let desc = std::mem::replace(&mut c.desc, d);
    let _ = desc;
    let z = spec(&mut c.rng, &SpecOpt { dim: 3, scale: 3.0, extra: 2, pmax: 2, ..Default::default() });
    c.describe(format!("{} / {}", sp.desc(), z.desc()));
    c.shape(&[sp.pts.len() as u64, sp.pts[0].len() as u64, z.p as u64, z.pts.len() as u64, sp.p as u64, sp.q as u64]);
    let (s, cv) = (sp.s3(), z.c3());
    let (du, dv) = s.knots_domain();
    let (fu, fv) = (c.rng.range(0.1, 0.9), c.rng.range(0.1, 0.9));
    let (u, v) = (du.0 + (du.1 - du.0) * fu, dv.0 + (dv.1 - dv.0) * fv);
    let q = p3(&(0..3).map(|_| c.rng.range(-3.0, 3.0)).collect::<Vec<_>>());
    let (uo, vo) = ((du.0 + du.1) * 0.5, (dv.0 + dv.1) * 0.5);
    let l = looped(c, 0.45, &[0.0, 0.0])?;
    let m = nalgebra::Matrix3::new(du.1 - du.0, 0.0, uo, 0.0, dv.1 - dv.0, vo, 0.0, 0.0, 1.0);
    let t = l.cv.clone().map(|cv| TrimmedSurface::new(s.clone(), Some(cv.transformed(&m)), vec![]));
    let (rs, rc, rt) = (&s, &cv, &t);
    let mesh = |m: &SurfaceTessellation<f64, nalgebra::Const<4>>| sig(&(m.points(), m.normals(), m.uvs(), m.faces()));
    let o = AdaptiveTessellationOptions { norm_tolerance: 1e-2, min_divs_u: 1, min_divs_v: 1, min_depth: 0, max_depth: 4 };
    let (oa, ob, oc) = (o.clone(), o.clone(), o.clone());
    let ops: Vec<Op> = vec![
        ("surface evaluation", Box::new(move || sig(&(rs.point_at(u, v), rs.normal_at(u, v), rs.rational_derivatives(u, v, 2))))),
        ("surface split", Box::new(move || sig(&rs.try_split(SplitSurfaceOption::new(u, UVDirection::U)).ok()))),
        ("surface isocurves", Box::new(move || sig(&(rs.try_isocurve(v, UVDirection::V).ok(), rs.try_boundary_curves().ok())))),
        ("surface closest", Box::new(move || sig(&rs.find_closest_parameter(&q).ok()))),
        ("surface tessellation", Box::new(move || mesh(&rs.tessellate(Some(oa.clone()))))),
        ("regular tessellation", Box::new(move || mesh(&rs.regular_tessellate(4, 5)))),
        ("constrained tessellation", Box::new(move || mesh(&rs.constrained_tessellate(BoundaryConstraints::default().with_u_parameters_at_v_min(vec![du.0, u, du.1]), Some(ob.clone()))))),
        ("surface intersection", Box::new(move || {
            if rs.control_points().len() * rs.control_points()[0].len() > 30 { return 0; }
            rs.find_intersections(rc, None).map(|v| sig(&v.iter().map(|x| (x.a_parameter(), x.b_parameter())).collect::<Vec<_>>())).unwrap_or(0)
        })),
        ("trimmed tessellation", Box::new(move || rt.as_ref().and_then(|t| t.tessellate(Some(oc.clone())).ok()).map(|m| mesh(&m)).unwrap_or(0))),
    ];
    judge(c, ops, &|| sig(&(rs, rc, rt)))
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C38",
        rule: "distinct (structure of the operands) combinations, each put through every operation of its group",
        loads: vec![
            Workload { name: "curves", f: curves, quick: 450, thorough: 6000 },
            Workload { name: "planar", f: planar, quick: 300, thorough: 4000 },
            Workload { name: "surfaces", f: surfaces, quick: 225, thorough: 3000 },
        ],
    }]
}
