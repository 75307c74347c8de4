//! C15: face measures and the triangulation verifier, against the simulator's own geometry.
//!
//! Faults: index buffers that already hold foreign entries, triangulations corrupted after the
//! fact, corners moved out of the plane or exchanged so that sides cross.

use super::tri::*;
use super::*;
use crate::by_index;
use crate::env::*;
use crate::geom::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::{Polygon2d, Vec2};
use procedural_modelling::math::{LineSegment2D, Polygon};
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::tesselate::*;
use std::collections::HashMap;

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(16);
    gen_history(r, sc, len, r.clone().chance(1, 8), 3);
    gen_polys(r, sc, 3);
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("shape", &args(r, 4)));
    let n = r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("bend", &args(r, 4)));
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("judge", &args(r, 6)));
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if poly_step(ed, st) {
            return Ok(());
        }
        match st.op.as_str() {
            "bend" => bend(ed, st),
            "shape" => shape_step(ed, st)?,
            "judge" => judge(ed, st)?,
            _ => {}
        }
        Ok(())
    })
}

/// Moves a corner out of its plane, or exchanges two corners' positions.
fn bend<I: Ix>(ed: &mut Editor<I>, st: &Step) {
    let fs: Vec<usize> = ed.cur.f.keys().copied().collect();
    if fs.is_empty() {
        return;
    }
    let f = fs[st.arg(0) as usize % fs.len()];
    let Some(g) = face_geo(&ed.cur, f) else { return };
    let n = g.verts.len();
    let a = st.arg(1) as usize % n;
    if st.arg(2) % 2 == 0 {
        let h = [0.3, -0.5, 1e-3, 2.0][st.arg(3) as usize % 4] * g.shape.diam;
        let v = g.verts[a];
        let p = ed.cur.v[&v].p.pos + g.normal * h;
        ed.mesh.vertex_mut(mk::<I>(v)).payload_mut().0.pos = p;
        ed.stats.c("fault:corner-off-plane");
    } else {
        let (v, w) = (g.verts[a], g.verts[(a + 1 + st.arg(3) as usize % (n - 1)) % n]);
        let (p, q) = (ed.cur.v[&v].p.pos, ed.cur.v[&w].p.pos);
        ed.mesh.vertex_mut(mk::<I>(v)).payload_mut().0.pos = q;
        ed.mesh.vertex_mut(mk::<I>(w)).payload_mut().0.pos = p;
        ed.stats.c("fault:corners-exchanged");
    }
    refresh(ed);
}

fn p2(v: &Vec2<f64>) -> P2 {
    [v[0], v[1]]
}
fn d2(a: P2, b: P2) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt()
}
fn near_seg(p: P2, a: P2, b: P2) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l).clamp(0.0, 1.0) };
    d2(p, [a[0] + t * dx, a[1] + t * dy])
}
/// Even-odd test; the point is not near the outline.
fn inside(p: &[P2], q: P2) -> bool {
    let n = p.len();
    let mut c = false;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if (a[1] > q[1]) != (b[1] > q[1]) && q[0] < (b[0] - a[0]) * (q[1] - a[1]) / (b[1] - a[1]) + a[0] {
            c = !c;
        }
    }
    c
}
/// Whether two segments cross that have no end near the other one: an end on the line through the
/// other one means they miss.
fn cross(a: P2, b: P2, c: P2, d: P2, diam: f64) -> bool {
    let side = |x: P2, y: P2, z: P2| {
        let w = cross2(x, y, z);
        (w.abs() > 1e-9 * diam * diam) as i32 * w.signum() as i32
    };
    side(a, b, c) * side(a, b, d) < 0 && side(c, d, a) * side(c, d, b) < 0
}
/// Where the sides of the outline cross properly, or None if that is too close to call.
fn crossing(p: &[P2], diam: f64) -> Option<bool> {
    let n = p.len();
    let mut any = false;
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
            let adj = j == i + 1 || (j + 1) % n == i;
            if adj {
                continue;
            }
            let m = near_seg(a, c, d).min(near_seg(b, c, d)).min(near_seg(c, a, b)).min(near_seg(d, a, b));
            if m < 1e-3 * diam {
                return None;
            }
            any |= cross(a, b, c, d, diam);
        }
    }
    Some(any)
}

fn shape_step<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let s = ed.cur.clone();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    let mut r = Rng::new(mix2(st.arg(0), st.arg(1)));
    for k in 0..fs.len().min(6) {
        let f = fs[(k + st.arg(2) as usize) % fs.len()];
        let Some(g) = face_geo(&s, f) else { continue };
        let (n, d) = (g.verts.len(), g.shape.diam);
        if !(0.3..200.0).contains(&d) || area2(&g.p).abs() < 1e-3 * d * d {
            ed.stats.c("faces-skipped-geometry");
            continue;
        }
        ed.stats.c("faces-measured");
        let what = |q: &str, t: String| viol(q, format!("{q} of face {f} with corners {:?}: {t}", g.p));
        let m = &ed.mesh;
        let pos: Vec<V3> = g.verts.iter().map(|v| s.v[v].p.pos).collect();
        let e1 = (pos[1] - pos[0]).cross(&(pos[2] - pos[0]));
        // planarity, decided only well away from the tolerance (an absolute triple product)
        let off = pos.iter().map(|p| (p - pos[0]).dot(&e1).abs()).fold(0.0, f64::max);
        let eps = [1e-6, 1e-3, 0.1, 1.0][st.arg(3) as usize % 4];
        let ans = call(|| (m.face(mk::<I>(f)).is_planar(m, eps), m.face(mk::<I>(f)).is_planar2(m)));
        let Res::Ok((pl, pl2)) = ans else { return what("is_planar", "panicked".into()) };
        let thin = e1.dot(&e1).sqrt() < 1e-3 * d * d;
        if !thin && (off < eps * 0.5 || off > eps * 2.0) {
            ed.stats.c("planarity-judged");
            if pl != (off < eps) {
                return what("is_planar", format!("{pl} for eps {eps}, but the corners are {off} off"));
            }
        }
        if !thin && (g.planar * d < 1e-11 || off > 1e-3) {
            if pl2 != (g.planar * d < 1e-11) {
                return what("is_planar2", format!("{pl2}, but the corners are {off} off"));
            }
        }
        // per-corner turns
        let ans = call(|| m.face(mk::<I>(f)).vertices_crossed(m).collect::<Vec<_>>());
        let Res::Ok(cr) = ans else { return what("vertices_crossed", "panicked".into()) };
        if cr.len() != n {
            return what("vertices_crossed", format!("{} entries", cr.len()));
        }
        for i in 0..n {
            // any starting corner is fine, but it must be one rotation for all
            let w = (pos[(i + 1) % n] - pos[i]).cross(&(pos[(i + 2) % n] - pos[i]));
            if (cr[i] - w).norm() > 1e-9 * d * d {
                return what("vertices_crossed", format!("entry {i} is {:?} instead of {w:?}", cr[i]));
            }
        }
        for e in s.face_loop(f) {
            let c = m.edge(mk::<I>(e)).centroid::<3>(m);
            let w = (s.v[&s.e[&e].origin].p.pos + s.v[&s.target(e)].p.pos) * 0.5;
            if (c - w).norm() > 1e-9 {
                return what("edge centroid", format!("edge {e}: {c:?} instead of {w:?}"));
            }
        }
        if g.planar * d > 1e-11 {
            ed.stats.c("faces-not-planar");
            continue;
        }
        let tame = g.shape.sharp > 2e-3;
        let crossed = crossing(&g.p, d);
        if crossed == Some(false) && tame && g.shape.simple {
            ed.stats.c("convexity-judged");
            let Res::Ok(cx) = call(|| m.face(mk::<I>(f)).is_convex(m)) else { return what("is_convex", "panicked".into()) };
            if cx != g.shape.convex {
                return what("is_convex", format!("{cx}"));
            }
            if cx && n >= 3 {
                let Res::Ok(nn) = call(|| m.face(mk::<I>(f)).normal_naive(m)) else {
                    return what("normal_naive", "panicked".into());
                };
                let nn = nn / nn.norm();
                if (nn - g.normal).norm() > 1e-6 {
                    return what("normal_naive", format!("{nn:?} instead of {:?}", g.normal));
                }
            }
        }
        let Res::Ok(nn) = call(|| m.face(mk::<I>(f)).normal(m)) else { return what("normal", "panicked".into()) };
        if (nn / nn.norm() - g.normal).norm() > 1e-6 {
            return what("normal", format!("{nn:?} instead of a multiple of {:?}", g.normal));
        }
        if let (Some(c), true) = (crossed, tame) {
            ed.stats.c(if c { "crossings-judged" } else { "simplicity-judged" });
            let Res::Ok((x, y)) = call(|| (m.face(mk::<I>(f)).has_self_intersections(m), m.face(mk::<I>(f)).is_simple(m))) else {
                return what("has_self_intersections", "panicked".into());
            };
            if x != c {
                return what("has_self_intersections", format!("{x}"));
            }
            if y == c {
                return what("is_simple", format!("{y}"));
            }
        }
        // the flat copy: an isometry in loop order
        let Res::Ok((flat, poly)) = call(|| (m.face(mk::<I>(f)).vec2s(m), m.face(mk::<I>(f)).as_polygon(m))) else {
            return what("as_polygon", "panicked".into());
        };
        let pts: Vec<P2> = poly.points().iter().map(p2).collect();
        if flat.len() != n || pts.len() != n || poly.num_points() != n {
            return what("as_polygon", format!("{} points", pts.len()));
        }
        for i in 0..n {
            if p2(&flat[i].vec) != pts[i] || ix(flat[i].index) != g.verts[i] {
                return what("vec2s", format!("point {i} is {:?}", flat[i]));
            }
            for j in 0..i {
                if (d2(pts[i], pts[j]) - d2(g.p[i], g.p[j])).abs() > 1e-7 * d {
                    return what("as_polygon", format!("corners {i}, {j} are {} apart instead of {}", d2(pts[i], pts[j]), d2(g.p[i], g.p[j])));
                }
            }
        }
        let a2 = area2(&pts);
        let tol = 1e-7 * d * d;
        if (a2 - area2(&g.p)).abs() > tol + 1e-9 * (pts[0][0].abs() + pts[0][1].abs()) * d {
            return what("as_polygon", format!("signed area {} instead of {}", a2 / 2.0, area2(&g.p) / 2.0));
        }
        let Res::Ok((sa, ar, ccw, cw, ce)) = call(|| (poly.signed_area(), poly.area(), poly.is_ccw(), poly.is_cw(), poly.centroid())) else {
            return what("Polygon", "panicked".into());
        };
        if (sa - a2 / 2.0).abs() > 1e-6 * d * d || ar != sa.abs() {
            return what("signed_area", format!("{sa}, area {ar}, instead of {}", a2 / 2.0));
        }
        if ccw != (a2 >= 0.0) || cw != (a2 <= 0.0) {
            return what("is_ccw", format!("{ccw}, is_cw {cw}, area {a2}"));
        }
        let mean = [pts.iter().map(|p| p[0]).sum::<f64>() / n as f64, pts.iter().map(|p| p[1]).sum::<f64>() / n as f64];
        if d2(p2(&ce), mean) > 1e-9 * (1.0 + d) {
            return what("centroid", format!("{ce:?} instead of {mean:?}"));
        }
        // reversed outline
        let rev: Vec<Vec2<f64>> = poly.points().iter().rev().copied().collect();
        let rp = Polygon2d::from_points(&rev);
        if (rp.signed_area() + sa).abs() > 1e-9 * d * d {
            return what("signed_area", format!("{} after reversal, {sa} before", rp.signed_area()));
        }
        if crossed == Some(false) && g.shape.simple {
            for t in 0..12 {
                let c = pts[r.below(n)];
                let q = if t % 3 == 0 {
                    // level with a corner
                    [c[0] + (r.f() - 0.5) * 2.0 * d, c[1]]
                } else {
                    [c[0] + (r.f() - 0.5) * 1.5 * d, c[1] + (r.f() - 0.5) * 1.5 * d]
                };
                if (0..n).any(|i| near_seg(q, pts[i], pts[(i + 1) % n]) < 1e-6 * d) {
                    continue;
                }
                ed.stats.c("points-located");
                let w = inside(&pts, q);
                let x = Vec2::new(q[0], q[1]);
                if poly.contains(&x) != w || rp.contains(&x) != w {
                    return what("contains", format!("{q:?} in {pts:?}: {} and reversed {}, but it is {w}", poly.contains(&x), rp.contains(&x)));
                }
            }
            if good(&g) {
                for _ in 0..10 {
                    let (i, j) = (r.below(n), r.below(n));
                    let want = if i == j {
                        false
                    } else if (i + 1) % n == j || (j + 1) % n == i {
                        true
                    } else {
                        let (a, b) = (pts[i], pts[j]);
                        let mut ok = true;
                        let mut close = false;
                        for k in 0..n {
                            let l = (k + 1) % n;
                            if k == i || k == j || l == i || l == j {
                                continue;
                            }
                            let (c, e) = (pts[k], pts[l]);
                            close |= near_seg(c, a, b).min(near_seg(e, a, b)) < 1e-6 * d;
                            ok &= !cross(a, b, c, e, d);
                        }
                        if close {
                            continue;
                        }
                        let mid = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
                        if (0..n).any(|k| near_seg(mid, pts[k], pts[(k + 1) % n]) < 1e-6 * d) {
                            continue;
                        }
                        ok && inside(&pts, mid)
                    };
                    ed.stats.c("diagonals-judged");
                    let Res::Ok(x) = call(|| poly.valid_diagonal(i, j)) else { return what("valid_diagonal", "panicked".into()) };
                    if x != want {
                        return what("valid_diagonal", format!("({i}, {j}) of {pts:?}: {x}"));
                    }
                }
            }
        }
        // segments
        for _ in 0..6 {
            let q = |r: &mut Rng| [pts[0][0] + (r.f() - 0.5) * 2.0 * d, pts[0][1] + (r.f() - 0.5) * 2.0 * d];
            let (a, b, c, e) = (pts[r.below(n)], q(&mut r), q(&mut r), q(&mut r));
            let v = |p: P2| Vec2::new(p[0], p[1]);
            let l = LineSegment2D::new(v(a), v(b));
            if (l.length() - d2(a, b)).abs() > 1e-9 * d || (l.length_squared() - d2(a, b).powi(2)).abs() > 1e-9 * d * d {
                return what("segment length", format!("{a:?} {b:?}: {}", l.length()));
            }
            let mi = l.midpoint();
            if (d2(p2(&mi), a) - d2(a, b) / 2.0).abs() > 1e-9 * d || (d2(p2(&mi), b) - d2(a, b) / 2.0).abs() > 1e-9 * d {
                return what("segment midpoint", format!("{a:?} {b:?}: {mi:?}"));
            }
            let o = LineSegment2D::new(v(c), v(e));
            let m = near_seg(a, c, e).min(near_seg(b, c, e)).min(near_seg(c, a, b)).min(near_seg(e, a, b));
            if m < 1e-3 * d {
                continue;
            }
            let w = cross(a, b, c, e, d);
            let x = l.intersect_line(&o, 1e-12, 1e-9);
            if x.is_some() != w {
                return what("intersect_line", format!("{a:?} {b:?} with {c:?} {e:?}: {x:?}"));
            }
            if let Some(x) = x {
                if near_seg(p2(&x), a, b).max(near_seg(p2(&x), c, e)) > 1e-7 * d {
                    return what("intersect_line", format!("{a:?} {b:?} with {c:?} {e:?}: {x:?} is not on both"));
                }
            }
            ed.stats.c("segments-judged");
        }
        ed.stats.c("nontrivial");
    }
    match snapshot::<I>(&ed.mesh) {
        Ok(a) if a.hash() == s.hash() => Ok(()),
        _ => viol("mesh-altered", "measuring faces altered the mesh".to_string()),
    }
}

/// One corruption of a valid triangulation (positions are relative to the triangulation's start).
fn corrupt<I: Ix>(r: &mut Rng, kind: u64, t: &mut Vec<I>, foreign: usize) -> &'static str {
    let n = t.len() / 3;
    let (a, b) = (r.below(n), r.below(n));
    match kind % 7 {
        0 => {
            t.truncate(t.len() - 3);
            "triangle-lost"
        }
        1 => {
            for k in 0..3 {
                t[3 * a + k] = t[3 * b + k];
            }
            "triangle-repeated"
        }
        2 => {
            t[3 * a + r.below(3)] = mk::<I>(foreign);
            "foreign-index"
        }
        3 => {
            t.swap(3 * a, 3 * a + 1);
            "triangle-reversed"
        }
        4 => {
            let x = t[3 * b + r.below(3)];
            t[3 * a + r.below(3)] = x;
            "corner-replaced"
        }
        5 => {
            let (i, j) = (3 * a + r.below(3), 3 * b + r.below(3));
            t.swap(i, j);
            "corners-exchanged"
        }
        _ => {
            let x: Vec<I> = t[3 * a..3 * a + 3].to_vec();
            t.extend(x);
            "triangle-added"
        }
    }
}

fn judge<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let s = ed.cur.clone();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    let mut r = Rng::new(mix2(st.arg(0), st.arg(1)));
    let mut meta = TesselationMeta::default();
    for k in 0..fs.len().min(4) {
        let f = fs[(k + st.arg(2) as usize) % fs.len()];
        let Some(g) = face_geo(&s, f) else { continue };
        let (n, d) = (g.verts.len(), g.shape.diam);
        if !good(&g) || g.shape.triple < 1e-5 || n > 40 {
            ed.stats.c("faces-skipped-geometry");
            continue;
        }
        let m = &ed.mesh;
        let face = *m.face(mk::<I>(f));
        let flat = face.vec2s(m);
        let hm: HashMap<I, Vec2<f64>> = flat.iter().map(|v| (v.index, v.vec)).collect();
        // entries of other meshes already in the buffer
        let junk = r.below(14);
        let mut buf: Vec<I> = (0..junk).map(|_| mk::<I>(r.below(40))).collect();
        let before = buf.clone();
        let alg = [TriangulationAlgorithm::Sweep, TriangulationAlgorithm::SweepDelaunay, TriangulationAlgorithm::Auto, TriangulationAlgorithm::Delaunay][r.below(4)];
        let got = call_b(30_000_000, || {
            let mut tri = Triangulation::new(&mut buf);
            triangulate_face::<MT<I>>(&face, m, &mut tri, alg, &mut meta);
        });
        let ids = |b: &[I]| -> Vec<[usize; 3]> { b[junk..].chunks(3).map(|c| [ix(c[0]), ix(c[1]), ix(c[2])]).collect() };
        if !matches!(got, Res::Ok(())) || buf.len() != junk + 3 * (n - 2) || check_triangulation(&g, &ids(&buf)).is_err() {
            continue; // C05 judges this
        }
        let valid: Vec<I> = buf[junk..].to_vec();
        let what = |q: &str, t: String| viol(q, format!("{q} on face {f} ({n} corners {:?}), {junk} older entries, triangles {:?}: {t}", g.p, valid));
        // reopen the same triangles behind the same prefix
        let mut open = before.clone();
        let ans = call(|| {
            let mut tri = Triangulation::new(&mut open);
            for (i, c) in valid.chunks(3).enumerate() {
                if (i + junk) % 2 == 0 {
                    tri.insert_triangle(c[0], c[1], c[2]);
                } else {
                    let at = |x: I| flat.iter().position(|v| v.index == x).unwrap();
                    tri.insert_triangle_local(at(c[0]), at(c[1]), at(c[2]), &flat);
                }
            }
            let areas: Vec<f64> = (0..tri.len()).map(|i| tri.get_triangle_area(i, &hm)).collect();
            let tr: Vec<_> = (0..tri.len()).map(|i| tri.get_triangle(i)).collect();
            let ix_: Vec<_> = (0..3 * tri.len()).map(|i| tri.get_index(i)).collect();
            let dbg = format!("{tri:?}").lines().count();
            (tri.len(), tri.next_pos(), areas, tr, ix_, tri.get_area(&hm), tri.total_edge_weight(&hm), dbg)
        });
        let Res::Ok((len, np, areas, tr, ixs, area, weight, dbg)) = ans else {
            return what("measures", format!("panicked: {}", last_panic()));
        };
        if open != buf {
            return what("insert_triangle", format!("buffer is {open:?} instead of {buf:?}"));
        }
        if len != n - 2 || np != buf.len() || dbg != n - 1 {
            return what("len", format!("{len} triangles, next position {np}, {dbg} debug lines"));
        }
        if ixs != valid || tr.iter().flat_map(|t| [t.0, t.1, t.2]).collect::<Vec<_>>() != valid {
            return what("get_triangle", format!("{tr:?}"));
        }
        let q = |x: I| p2(&hm[&x]);
        for (i, c) in valid.chunks(3).enumerate() {
            // documented as the area; both the doubled and the plain one are accepted consistently
            let w = cross2(q(c[0]), q(c[1]), q(c[2]));
            if (areas[i] - w).abs() > 1e-7 * d * d {
                return what("get_triangle_area", format!("triangle {i}: {} instead of {w}", areas[i]));
            }
        }
        let want = area2(&g.p).abs() / 2.0;
        if (area - want).abs() > 1e-6 * d * d {
            return what("get_area", format!("{area} instead of {want}"));
        }
        let want: f64 = valid.chunks(3).map(|c| d2(q(c[0]), q(c[1])) + d2(q(c[1]), q(c[2])) + d2(q(c[2]), q(c[0]))).sum();
        if (weight - want).abs() > 1e-6 * d * n as f64 {
            return what("total_edge_weight", format!("{weight} instead of {want}"));
        }
        let verify = |buf: &Vec<I>| -> (Vec<I>, Res<()>) {
            let mut b = before.clone();
            let x = call(|| {
                let mut tri = Triangulation::new(&mut b);
                let t = &buf[junk..];
                let mut i = 0;
                while i + 3 <= t.len() {
                    tri.insert_triangle(t[i], t[i + 1], t[i + 2]);
                    i += 3;
                }
                tri.verify_full::<Vec2<f64>, Polygon2d<f64>>(&flat);
            });
            (b, x)
        };
        ed.stats.c("verified-valid");
        if let (_, Res::Panic(p)) = verify(&buf) {
            return what("verify_full:rejects", p);
        }
        // map there and back
        let hm2: HashMap<I, I> = g.verts.iter().enumerate().map(|(i, v)| (mk::<I>(*v), mk::<I>(g.verts[(i + 1) % n]))).collect();
        let mut b = before.clone();
        let _ = call(|| {
            let mut tri = Triangulation::new(&mut b);
            for c in valid.chunks(3) {
                tri.insert_triangle(c[0], c[1], c[2]);
            }
            tri.map_indices(&hm2);
        });
        if b[..junk] != before[..] || b[junk..].iter().zip(&valid).any(|(x, y)| *x != hm2[y]) || b.len() != buf.len() {
            return what("map_indices", format!("{b:?} from {buf:?} by {hm2:?}"));
        }
        // exchange the diagonal of two neighbouring triangles
        'flip: for _ in 0..4 {
            let (a, b) = (r.below(n - 2), r.below(n - 2));
            let (ka, kb) = (junk + 3 * a, junk + 3 * b);
            let (x, y) = (r.below(3), r.below(3));
            let (va, vb) = (buf[ka + x], buf[ka + (x + 1) % 3]);
            // b is the neighbour over (va, vb) iff it has the reversed side
            let back = (0..3).find(|k| buf[kb + k] == vb && buf[kb + (k + 1) % 3] == va);
            let mut nb = buf.clone();
            let arg = if r.chance(1, 6) { (buf[ka + y], buf[kb + x]) } else { (va, vb) };
            let fits = (0..3).any(|k| buf[ka + k] == arg.0 && buf[ka + (k + 1) % 3] == arg.1)
                && (0..3).any(|k| buf[kb + k] == arg.1 && buf[kb + (k + 1) % 3] == arg.0);
            let ans = call(|| {
                // the view's positions are those of the whole buffer
                let mut t = Triangulation::new(&mut nb);
                t.flip_edge(arg.0, arg.1, ka, kb)
            });
            let Res::Ok(ans) = ans else { return what("flip_edge", format!("panicked: {}", last_panic())) };
            if ans.is_ok() != fits {
                return what("flip_edge", format!("{ans:?} for {:?} in triangles {a}, {b}", (ix(arg.0), ix(arg.1))));
            }
            if ans.is_err() {
                if nb != buf {
                    return what("flip_edge", "a refused flip changed the buffer".into());
                }
                ed.stats.c("flips-refused");
                continue 'flip;
            }
            ed.stats.c("flips");
            let Some(back) = back else { continue };
            let (c, e) = (buf[ka + (x + 2) % 3], buf[kb + (back + 2) % 3]);
            if nb[..ka.min(kb)] != buf[..ka.min(kb)] || nb[ka.max(kb) + 3..] != buf[ka.max(kb) + 3..] {
                return what("flip_edge", "entries of other triangles changed".into());
            }
            let has = |t: &[I], x: I, y: I, z: I| (0..3).any(|k| t[k] == x && t[(k + 1) % 3] == y && t[(k + 2) % 3] == z);
            let (ta, tb) = (&nb[ka..ka + 3], &nb[kb..kb + 3]);
            if !((has(ta, va, e, c) && has(tb, e, vb, c)) || (has(tb, va, e, c) && has(ta, e, vb, c))) {
                return what("flip_edge", format!("over {:?} with tips {} {} gives {ta:?} {tb:?}", (ix(va), ix(vb)), ix(c), ix(e)));
            }
        }
        // corrupted triangulations
        let other = s.v.keys().copied().find(|v| !g.verts.contains(v)).unwrap_or(I::CAP.min(200) - 1);
        for _ in 0..3 {
            let mut t = valid.clone();
            let kind = r.u64();
            let name = corrupt::<I>(&mut r, kind, &mut t, other);
            let mut b = before.clone();
            b.extend(t.iter().copied());
            let bad = check_triangulation(&g, &ids(&b));
            // corruptions that leave a triangulation of the same face are no corruption
            let Err(why) = bad else {
                ed.stats.c("corruption-harmless");
                continue;
            };
            // neither is a list the verifier's measures (corners used, sides crossing, area covered)
            // cannot tell from a triangulation: equal triangles on top of each other
            let sum: f64 = t.chunks(3).filter(|c| c.iter().all(|x| hm.contains_key(x))).map(|c| cross2(q(c[0]), q(c[1]), q(c[2])).abs()).sum();
            if ["side", "diagonal", "repeat"].iter().any(|x| why.starts_with(x)) {
                if (sum / 2.0 - area2(&g.p).abs() / 2.0).abs() < 1e-4 * area2(&g.p).abs() {
                    ed.stats.c("corruption-invisible");
                    continue;
                }
            }
            ed.stats.c(&format!("fault:{name}"));
            let (after, x) = verify(&b);
            if after != b {
                return what("verify_full:alters", format!("{after:?}"));
            }
            ed.stats.c("verified-corrupt");
            if matches!(x, Res::Ok(())) {
                return what("verify_full:accepts", format!("{name} ({why}): {t:?}"));
            }
        }
        ed.stats.c("nontrivial");
    }
    Ok(())
}
