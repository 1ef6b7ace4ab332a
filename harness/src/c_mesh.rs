//! C30/C31: surface tessellations as complexes over the parameter rectangle.
use crate::gen::*;
use crate::mon::*;
use crate::refmath::*;
use crate::{chk, must};
use curvo::prelude::*;
use std::collections::HashMap;

/// mesh with vertices merged by their parameters
pub struct Complex {
    pub uv: Vec<(f64, f64)>,
    /// merged vertex per mesh vertex
    pub id: Vec<usize>,
    pub faces: Vec<[usize; 3]>,
}

pub fn merge_axis(mut x: Vec<f64>, tol: f64) -> Vec<f64> {
    x.sort_by(|a, b| a.total_cmp(b));
    let mut r: Vec<f64> = vec![];
    for v in x {
        if r.last().map_or(true, |l| v - l > tol) {
            r.push(v);
        }
    }
    r
}
pub fn locate(ax: &[f64], x: f64) -> usize {
    let i = ax.partition_point(|a| *a < x);
    let mut best = (f64::MAX, 0);
    for k in i.saturating_sub(1)..(i + 2).min(ax.len()) {
        if (ax[k] - x).abs() < best.0 {
            best = ((ax[k] - x).abs(), k);
        }
    }
    best.1
}

pub fn cross2(a: (f64, f64), b: (f64, f64), c: (f64, f64)) -> f64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}

pub fn complex(uvs: &[(f64, f64)], faces: &[[usize; 3]], len: (f64, f64)) -> Complex {
    let au = merge_axis(uvs.iter().map(|p| p.0).collect(), 1e-11 * len.0.abs().max(1e-300));
    let av = merge_axis(uvs.iter().map(|p| p.1).collect(), 1e-11 * len.1.abs().max(1e-300));
    let mut ids: HashMap<(usize, usize), usize> = HashMap::new();
    let mut uv = vec![];
    let mut id = vec![];
    for p in uvs {
        let k = (locate(&au, p.0), locate(&av, p.1));
        let n = ids.len();
        let e = *ids.entry(k).or_insert_with(|| {
            uv.push(*p);
            n
        });
        id.push(e);
    }
    let faces = faces.iter().map(|f| [id[f[0]], id[f[1]], id[f[2]]]).collect();
    Complex { uv, id, faces }
}

/// the faces tile the rectangle exactly once, consistently oriented, without
/// cracks; `collapsed` allows zero-area faces. Returns the boundary vertices.
pub fn tiles(c: &mut Ctx, m: &Complex, dom: ((f64, f64), (f64, f64)), collapsed: bool) -> Result<Vec<usize>, Stop> {
    let ((u0, u1), (v0, v1)) = dom;
    let area = (u1 - u0) * (v1 - v0);
    let mut sum = 0.0;
    let mut edges: HashMap<(usize, usize), u32> = HashMap::new();
    for f in &m.faces {
        let a = cross2(m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]) / 2.0;
        let flat = f[0] == f[1] || f[1] == f[2] || f[0] == f[2] || a.abs() <= 1e-13 * area;
        if !collapsed {
            chk!(!flat, "mesh-degenerate-face", "face {:?} has parameters {:?} {:?} {:?}", f, m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]);
        } else if f[0] == f[1] || f[1] == f[2] || f[0] == f[2] {
            // a face collapsed onto an edge
            continue;
        }
        chk!(a > 0.0 || (collapsed && flat), "mesh-orientation", "face {:?} with parameters {:?} {:?} {:?} is turned over", f, m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]);
        sum += a;
        for k in 0..3 {
            *edges.entry((f[k], f[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    chk!((sum - area).abs() <= 1e-9 * area, "mesh-area", "faces cover {sum} of the parameter area {area}");
    let mut border = vec![];
    let mut per = 0.0;
    for ((a, b), n) in &edges {
        chk!(*n == 1, "mesh-edge-twice", "edge {:?}-{:?} is used {n} times in the same direction", m.uv[*a], m.uv[*b]);
        if !edges.contains_key(&(*b, *a)) {
            let (p, q) = (m.uv[*a], m.uv[*b]);
            let on = |x: f64, y: f64, e: f64, l: f64| (x - e).abs() <= 1e-9 * l && (y - e).abs() <= 1e-9 * l;
            let (lu, lv) = (u1 - u0, v1 - v0);
            let at = on(p.0, q.0, u0, lu) || on(p.0, q.0, u1, lu) || on(p.1, q.1, v0, lv) || on(p.1, q.1, v1, lv);
            chk!(at, "mesh-crack", "edge {p:?}-{q:?} inside the domain belongs to one face only");
            per += (p.0 - q.0).abs() / lu + (p.1 - q.1).abs() / lv;
            border.push(*a);
            border.push(*b);
        }
    }
    chk!((per - 4.0).abs() < 1e-7, "mesh-border", "border edges cover {per}/4 of the four sides");
    border.sort();
    border.dedup();
    c.ev("faces", m.faces.len() as u64);
    c.ev("edges", edges.len() as u64);
    Ok(border)
}

/// vertices lie on the surface at their parameters with the unit normal there
pub fn vertices_on(c: &mut Ctx, rs: &RS, t: &SurfaceTessellation3D<f64>, unit_normals: bool) -> R {
    let ((u0, u1), (v0, v1)) = rs.dom();
    let sc = rs.scale();
    let n = t.points().len();
    chk!(t.normals().len() == n && t.uvs().len() == n, "mesh-lengths", "{n} points, {} normals, {} uvs", t.normals().len(), t.uvs().len());
    for f in t.faces() {
        for i in f {
            chk!(*i < n, "mesh-index", "index {i} of {n} vertices");
        }
    }
    let tu = 1e-12 * (u1 - u0).max(u0.abs()).max(u1.abs());
    let tv = 1e-12 * (v1 - v0).max(v0.abs()).max(v1.abs());
    for i in 0..n {
        let (u, v) = (t.uvs()[i].x, t.uvs()[i].y);
        chk!(u >= u0 - tu && u <= u1 + tu && v >= v0 - tv && v <= v1 + tv, "mesh-uv", "uv {u},{v} outside the domain");
        let (u, v) = (u.clamp(u0, u1), v.clamp(v0, v1));
        let (p, du, dv) = rs.ders(u, v);
        let q = pv(&t.points()[i]);
        c.err("vertex/scale", dist(&p, &q) / sc);
        chk!(dist(&p, &q) <= 1e-9 * sc * rs.wratio().max(1.0), "mesh-vertex", "vertex {i} {q:?} is not the surface {p:?} at {u},{v}");
        // at a crease (a C0 knot line) either side's normal will do
        let crease = |br: &[f64], x: f64, p: usize, k: &[f64]| p > 0 && br[1..br.len() - 1].iter().any(|b| (b - x).abs() <= 1e-9 * (br[br.len() - 1] - br[0]) && k.iter().filter(|y| *y == b).count() >= p);
        if crease(&rs.ubreaks(), u, rs.p, &rs.ku) || crease(&rs.vbreaks(), v, rs.q, &rs.kv) {
            chk!(finite(&vv(&t.normals()[i])), "mesh-normal-nan", "normal {:?} at {u},{v}", t.normals()[i]);
            continue;
        }
        let nn = cross(&du, &dv);
        let nv = vv(&t.normals()[i]);
        chk!(finite(&nv), "mesh-normal-nan", "normal {nv:?} at {u},{v}");
        // away from degenerate points
        if norm(&nn) > 1e-5 * norm(&du) * norm(&dv) && norm(&du) > 1e-7 * sc && norm(&dv) > 1e-7 * sc {
            let w = unit(&nn);
            let nv = if unit_normals { nv } else { unit(&nv) };
            chk!(dist(&nv, &w) <= 1e-6, "mesh-normal", "normal {nv:?} at {u},{v} instead of {w:?}");
        }
    }
    c.ev("vertices", n as u64);
    Ok(())
}

fn surf(c: &mut Ctx) -> Result<NurbsSurface3D<f64>, Stop> {
    let k = c.rng.int(0, 5);
    let s = surf_unit(c, k)?;
    // any size
    if c.rng.bool(0.25) {
        let f = 10f64.powf(c.rng.range(-5.0, 5.0));
        c.describe(format!("{} scaled by {f}", c.desc));
        return Ok(s.transformed(&nalgebra::Matrix4::new_scaling(f)));
    }
    Ok(s)
}

pub fn surf_unit(c: &mut Ctx, k: usize) -> Result<NurbsSurface3D<f64>, Stop> {
    Ok(match k {
        0..=3 => {
            let w = *c.rng.pick(&[W::One, W::Mild]);
            let h = c.rng.range(0.0, 0.8);
            let styles = [KS::Bezier, KS::ClampedUniform, KS::ClampedRandom, KS::OpenUniform, KS::OpenRandom];
            sspec(c, &SOpt { pmax: 3, extra: 3, w: Some(w), height: Some(h), styles: &styles, ..Default::default() }).s3()
        }
        _ => {
            let (x, y, z) = frame3(&mut c.rng);
            let o: V = (0..3).map(|_| c.rng.range(-4.0, 4.0)).collect();
            let r = c.rng.range(0.5, 6.0);
            c.shape(&[77, (r * 4.0) as u64]);
            c.describe(format!("analytic {k} o={o:?} x={x:?} z={z:?} r={r}"));
            if k == 4 {
                let a = c.rng.range(0.5, 6.28);
                let prof = must!(NurbsCurve3D::try_arc(&p3(&o), &v3(&x), &v3(&z), r, -1.0, 1.2), "arc");
                must!(NurbsSurface::try_revolve(&prof, &p3(&o), &v3(&z), a), "revolve")
            } else if c.rng.bool(0.5) {
                must!(NurbsSurface::try_sphere(&p3(&o), &v3(&z), &v3(&x), r), "sphere")
            } else {
                let circ = must!(NurbsCurve3D::try_circle(&p3(&o), &v3(&x), &v3(&y), r), "circle");
                NurbsSurface::extrude(&circ, &v3(&mul(&z, r)))
            }
        }
    })
}

fn options(c: &mut Ctx) -> Option<AdaptiveTessellationOptions<f64>> {
    if c.rng.bool(0.1) {
        return None;
    }
    let mut o = AdaptiveTessellationOptions::<f64>::default();
    if c.rng.bool(0.8) {
        o.norm_tolerance = 10f64.powf(c.rng.range(-2.5, -0.3));
        o.min_divs_u = c.rng.int(1, 6);
        o.min_divs_v = c.rng.int(1, 6);
        o.min_depth = if c.rng.bool(0.5) { 0 } else { c.rng.int(0, 4) };
        o.max_depth = c.rng.int(0, 7).max(o.min_depth);
    }
    Some(o)
}

fn uv_of(t: &SurfaceTessellation3D<f64>) -> Vec<(f64, f64)> {
    t.uvs().iter().map(|v| (v.x, v.y)).collect()
}

fn c30_adaptive(c: &mut Ctx) -> R {
    let s = surf(c)?;
    let o = options(c);
    let rs = RS::of(&s);
    let dom = rs.dom();
    let len = (dom.0 .1 - dom.0 .0, dom.1 .1 - dom.1 .0);
    c.describe(format!("{} options {:?}", c.desc, o));
    let t = s.tessellate(o.clone());
    vertices_on(c, &rs, &t, true)?;
    let uvs = uv_of(&t);
    let m = complex(&uvs, t.faces(), len);
    tiles(c, &m, dom, false)?;
    c.shape(&[t.faces().len() as u64, t.points().len() as u64, m.uv.len() as u64]);
    // cells are never larger than the requested minimum divisions and depth
    let oo = o.clone().unwrap_or_default();
    let base = |deg: usize, n: usize, l: f64, div: usize| if deg > 1 { l / (2 * (n - 1)).max(div) as f64 } else { f64::MAX };
    let (n, mm) = (s.control_points().len(), s.control_points()[0].len());
    let (bu, bv) = (base(s.u_degree(), n, len.0, oo.min_divs_u), base(s.v_degree(), mm, len.1, oo.min_divs_v));
    let area = bu * bv;
    for f in &m.faces {
        let us: Vec<f64> = f.iter().map(|i| m.uv[*i].0).collect();
        let vs: Vec<f64> = f.iter().map(|i| m.uv[*i].1).collect();
        let ext = |x: &[f64]| x.iter().cloned().fold(f64::MIN, f64::max) - x.iter().cloned().fold(f64::MAX, f64::min);
        let (eu, ev) = (ext(&us), ext(&vs));
        chk!(eu <= bu * 1.0001 && ev <= bv * 1.0001, "mesh-coarse", "face spans {eu} x {ev}, requested at most {bu} x {bv}");
        // (cells with a degenerate corner are divided up to the minimum depth too)
        if o.is_some() && area < f64::MAX {
            let a = cross2(m.uv[f[0]], m.uv[f[1]], m.uv[f[2]]).abs() / 2.0;
            chk!(a <= area / 2f64.powi(oo.min_depth as i32) * 0.5001, "mesh-depth", "face area {a} although every cell of {area} is divided {} times", oo.min_depth);
        }
    }
    // normals of neighbouring cell corners agree unless the depth limit was hit
    if let Some(o) = &o {
        let gap = |x: Vec<f64>| x.windows(2).map(|w| w[1] - w[0]).fold(f64::MAX, f64::min);
        let du = gap(merge_axis(uvs.iter().map(|p| p.0).collect(), 1e-11 * len.0));
        let dv = gap(merge_axis(uvs.iter().map(|p| p.1).collect(), 1e-11 * len.1));
        // the smallest cells of the initial grid
        let cell = |deg: usize, br: Vec<f64>, b: f64| if deg > 1 { b } else { gap(br) };
        let grid = cell(s.u_degree(), rs.ubreaks(), bu) * cell(s.v_degree(), rs.vbreaks(), bv);
        let limit_hit = du * dv <= grid / 2f64.powi(o.max_depth as i32) * 1.001;
        // cells with a degenerate corner are not divided by flatness
        let degenerate = uvs.iter().any(|(u, v)| {
            let (_, a, b) = rs.ders(u.clamp(dom.0 .0, dom.0 .1), v.clamp(dom.1 .0, dom.1 .1));
            norm(&cross(&a, &b)) <= 1e-6 * norm(&a).max(norm(&b)).powi(2)
        });
        if !limit_hit && !degenerate && k_smooth(&s) {
            c.ev("meshes whose flatness criterion was checked", 1);
            let mut nor: HashMap<usize, V> = HashMap::new();
            for i in 0..uvs.len() {
                nor.insert(m.id[i], vv(&t.normals()[i]));
            }
            for f in &m.faces {
                for k in 0..3 {
                    let (a, b) = (f[k], f[(k + 1) % 3]);
                    let axis = (m.uv[a].0 - m.uv[b].0).abs() < 1e-12 * len.0 || (m.uv[a].1 - m.uv[b].1).abs() < 1e-12 * len.1;
                    // an edge to a fan centre is axis-parallel only by accident
                    if axis && !fan(&m, a, b) {
                        let d = dist(&nor[&a], &nor[&b]).powi(2);
                        chk!(d <= o.norm_tolerance * 1.0001 + 1e-9, "mesh-flatness", "normals along the edge {:?}-{:?} differ by {d} (tolerance {})", m.uv[a], m.uv[b], o.norm_tolerance);
                    }
                }
            }
        }
    }
    Ok(())
}

/// continuously differentiable (normals are single-valued)
fn k_smooth(s: &NurbsSurface3D<f64>) -> bool {
    s.u_degree() > 1 && s.v_degree() > 1
}

/// is one end of the edge the centre of a fan (all its faces share it and no axis-parallel ring passes it)?
fn fan(m: &Complex, a: usize, b: usize) -> bool {
    // fan centres have at least 6 faces and every other vertex of those faces
    // lies on one rectangle around it
    let is_c = |v: usize| {
        let fs: Vec<&[usize; 3]> = m.faces.iter().filter(|f| f.contains(&v)).collect();
        if fs.len() < 6 {
            return false;
        }
        let ring: Vec<(f64, f64)> = fs.iter().flat_map(|f| f.iter().filter(|x| **x != v).map(|x| m.uv[*x]).collect::<Vec<_>>()).collect();
        let mm = |g: fn(&(f64, f64)) -> f64| (ring.iter().map(g).fold(f64::MAX, f64::min), ring.iter().map(g).fold(f64::MIN, f64::max));
        let (u, w) = (mm(|p| p.0), mm(|p| p.1));
        let mid = ((u.0 + u.1) / 2.0, (w.0 + w.1) / 2.0);
        (m.uv[v].0 - mid.0).abs() < 1e-9 * (u.1 - u.0) && (m.uv[v].1 - mid.1).abs() < 1e-9 * (w.1 - w.0)
    };
    is_c(a) || is_c(b)
}

fn c30_regular(c: &mut Ctx) -> R {
    let s = surf(c)?;
    let (nu, nv) = (c.rng.int(1, 12), c.rng.int(1, 12));
    let rs = RS::of(&s);
    let dom = rs.dom();
    c.describe(format!("{} regular {nu}x{nv}", c.desc));
    let t = s.regular_tessellate(nu, nv);
    chk!(t.points().len() == (nu + 1) * (nv + 1) && t.faces().len() == nu * nv * 2, "mesh-grid", "{} points and {} faces for {nu}x{nv}", t.points().len(), t.faces().len());
    vertices_on(c, &rs, &t, false)?;
    let len = (dom.0 .1 - dom.0 .0, dom.1 .1 - dom.1 .0);
    let m = complex(&uv_of(&t), t.faces(), len);
    chk!(m.uv.len() == (nu + 1) * (nv + 1), "mesh-grid", "{} distinct parameters", m.uv.len());
    for p in &m.uv {
        let (a, b) = ((p.0 - dom.0 .0) / len.0 * nu as f64, (p.1 - dom.1 .0) / len.1 * nv as f64);
        chk!((a - a.round()).abs() < 1e-8 && (b - b.round()).abs() < 1e-8, "mesh-grid", "{p:?} is not on the regular grid");
    }
    tiles(c, &m, dom, false)?;
    c.shape(&[nu as u64, nv as u64]);
    let w: SurfaceTessellation3D<f64> = t.cast();
    chk!(w.points() == t.points() && w.normals() == t.normals() && w.uvs() == t.uvs() && w.faces() == t.faces(), "mesh-cast", "cast changed the mesh");
    Ok(())
}

fn c31(c: &mut Ctx) -> R {
    let k = c.rng.int(0, 4);
    let s = surf_unit(c, k)?;
    let rs = RS::of(&s);
    let dom = rs.dom();
    let len = (dom.0 .1 - dom.0 .0, dom.1 .1 - dom.1 .0);
    let o = options(c);
    let mut b = BoundaryConstraints::<f64>::default();
    let list = |c: &mut Ctx, d: (f64, f64), br: &[f64]| -> Vec<f64> {
        let n = c.rng.int(0, 9);
        let mut l: Vec<f64> = (0..n)
            .map(|_| match c.rng.int(0, 5) {
                0 => *c.rng.pick(br),
                1 => d.0 + (d.1 - d.0) * c.rng.int(1, 7) as f64 / 8.0,
                2 => d.0 + (d.1 - d.0) * c.rng.range(0.0, 0.05),
                _ => c.rng.range(d.0, d.1),
            })
            .collect();
        l.push(d.0);
        l.push(d.1);
        merge_axis(l, 1e-6 * (d.1 - d.0)).into_iter().map(|x| if d.1 - x < 1e-6 * (d.1 - d.0) { d.1 } else { x }).collect()
    };
    let mut lists: [Option<Vec<f64>>; 4] = [None, None, None, None];
    let mask = c.rng.int(1, 15);
    for e in 0..4 {
        if mask >> e & 1 == 1 {
            let l = if e % 2 == 0 { list(c, dom.0, &rs.ubreaks()) } else { list(c, dom.1, &rs.vbreaks()) };
            lists[e] = Some(l.clone());
            b = match e {
                0 => b.with_u_parameters_at_v_min(l),
                1 => b.with_v_parameters_at_u_min(l),
                2 => b.with_u_parameters_at_v_max(l),
                _ => b.with_v_parameters_at_u_max(l),
            };
        }
    }
    c.describe(format!("{} constraints [u at vmin, v at umin, u at vmax, v at umax] {:?} options {:?}", c.desc, lists, o));
    let t = s.constrained_tessellate(b, o);
    vertices_on(c, &rs, &t, true)?;
    let uvs = uv_of(&t);
    for e in 0..4 {
        let side = [dom.1 .0, dom.0 .0, dom.1 .1, dom.0 .1][e];
        let l = if e % 2 == 0 { len.1 } else { len.0 };
        let got: Vec<f64> = uvs.iter().filter(|p| ((if e % 2 == 0 { p.1 } else { p.0 }) - side).abs() <= 1e-10 * l).map(|p| if e % 2 == 0 { p.0 } else { p.1 }).collect();
        let d = if e % 2 == 0 { len.0 } else { len.1 };
        chk!(!got.is_empty(), "constraint-edge", "no vertex on edge {e}");
        if let Some(want) = &lists[e] {
            c.ev("constrained edges", 1);
            c.ev("constrained edge vertices", got.len() as u64);
            for x in &got {
                chk!(want.iter().any(|w| (w - x).abs() <= 1e-10 * d), "constraint-extra", "edge {e} has a vertex at {x}, not one of {want:?}");
            }
            for w in want {
                chk!(got.iter().any(|x| (w - x).abs() <= 1e-10 * d), "constraint-missing", "edge {e} has no vertex at {w}: {got:?}");
            }
        }
    }
    // listed parameters that differ from the grid only by rounding make slivers without area
    let sliver = |mut x: Vec<f64>, l: f64| {
        x.sort_by(|a, b| a.total_cmp(b));
        x.windows(2).any(|w| w[1] != w[0] && w[1] - w[0] < 1e-9 * l)
    };
    if sliver(uvs.iter().map(|p| p.0).collect(), len.0) || sliver(uvs.iter().map(|p| p.1).collect(), len.1) {
        c.ev("meshes with rounding slivers (tiling not checked)", 1);
        return Ok(());
    }
    let m = complex(&uvs, t.faces(), len);
    c.ev("constrained meshes tiled", 1);
    tiles(c, &m, dom, true)?;
    c.shape(&[mask as u64, t.faces().len() as u64]);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "distinct (surface shape; mesh size) pairs",
        loads: vec![
            Workload { name: "adaptive", f: c30_adaptive, quick: 4000, thorough: 20000 },
            Workload { name: "regular", f: c30_regular, quick: 3000, thorough: 15000 },
        ],
    },
    Prop {
        id: "C31",
        rule: "distinct (constrained edges; mesh size; surface shape) combinations",
        loads: vec![Workload { name: "constrained", f: c31, quick: 5000, thorough: 30000 }],
    }]
}
