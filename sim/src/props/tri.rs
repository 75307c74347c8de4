//! C05: triangulation of the faces of meshes that histories produce.

use super::*;
use crate::by_index;
use crate::env::*;
use crate::geom::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::primitives::*;
use procedural_modelling::tesselate::*;

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(20);
    gen_history(r, sc, len, r.clone().chance(1, 8), 3);
    gen_polys(r, sc, 2);
    sprinkle(r, sc, 1, &mut |r| Step::new("tri", &args(r, 4)));
}

/// Inserts `poly` and `wrap` steps into a history.
pub fn gen_polys(r: &mut Rng, sc: &mut Scenario, most: usize) {
    for _ in 0..1 + r.below(most) {
        let n = match r.below(6) {
            0 => 3 + r.below(3),
            1..=3 => 4 + r.below(8),
            4 => 7 + r.below(14),
            _ => 15 + r.below(30),
        };
        let st = Step::new("poly", &[r.below(8) as u64, n as u64, r.below(1 << 30) as u64, r.below(4) as u64]);
        let at = r.below(sc.steps.len() + 1).max(1).min(sc.steps.len());
        sc.steps.insert(at, st);
        let mut at = at;
        for _ in 0..r.below(3) {
            at = (at + 1 + r.below(3)).min(sc.steps.len());
            sc.steps.insert(at, Step::new("wrap", &args(r, 4)));
        }
    }
}

/// Executes `poly` and `wrap`; false if the step is another.
pub fn poly_step<I: Ix>(ed: &mut Editor<I>, st: &Step) -> bool {
    match st.op.as_str() {
        "poly" => {
            let mut n = st.arg(1) as usize;
            if I::CAP < 1000 {
                n = n.min(24);
            }
            let mut r = Rng::new(st.arg(2));
            let p = polygon(&mut r, st.arg(0), n);
            let pl = placement(&mut r, st.arg(3));
            if ed.cur.e.len() + 2 * p.len() > I::CAP.min(600) {
                return true;
            }
            let k = r.below(p.len());
            let vps: Vec<VPd> = (0..p.len()).map(|i| VPd::new(fresh_tag(), pl.at(p[(i + k) % p.len()]))).collect();
            let _ = call(|| ed.mesh.insert_polygon(vps.into_iter().map(VP)));
            ed.stats.c("polygons");
            refresh(ed);
            true
        }
        "wrap" => {
            // surround existing faces with other faces
            let s = &ed.cur;
            let b: Vec<usize> = s
                .e
                .iter()
                .filter(|(_, e)| e.face == NONE && s.e[&e.twin].face != NONE)
                .map(|(i, _)| *i)
                .collect();
            if b.is_empty() || s.e.len() > I::CAP.min(500) / 3 {
                return true;
            }
            let e = b[st.arg(0) as usize % b.len()];
            let l = s.lp(e);
            let o: std::collections::BTreeSet<usize> = l.iter().map(|x| s.e[x].origin).collect();
            if o.len() != l.len() || l.len() < 3 {
                return true;
            }
            let fp = FP::new(fresh_tag());
            match st.arg(1) % 4 {
                0 => {
                    let _ = call(|| ed.mesh.close_hole(mk::<I>(e), fp, st.arg(2) % 2 == 1));
                }
                1 | 2 => {
                    // a chord on the other side of the polygon
                    let k = 1 + st.arg(2) as usize % l.len().saturating_sub(2).max(1);
                    let out = l[(k + 1) % l.len()];
                    let (v, w) = (s.target(e), s.target(out));
                    if v != w && s.between(v, w).is_none() {
                        let ep = (EP::new(fresh_tag()), EP::new(fresh_tag()));
                        if st.arg(1) % 4 == 1 {
                            let _ = call(|| ed.mesh.insert_edge(mk::<I>(e), ep.0, mk::<I>(out), ep.1));
                        } else {
                            let _ = call(|| ed.mesh.close_face(mk::<I>(e), ep.0, mk::<I>(out), ep.1, fp, false));
                        }
                    }
                }
                _ => {
                    let m = l.len();
                    let vps: Vec<VP> = l
                        .iter()
                        .map(|x| VP::new(fresh_tag(), s.v[&s.e[x].origin].p.pos * 2.0 + V3::new(0.0, 0.0, 1.0)))
                        .collect();
                    let _ = m;
                    let _ = call(|| ed.mesh.loft_tri_closed(mk::<I>(e), vps));
                }
            }
            refresh(ed);
            true
        }
        _ => false,
    }
}

/// Re-reads the mesh after a direct call; a malformed mesh ends the run (other properties judge it).
pub fn refresh<I: Ix>(ed: &mut Editor<I>) {
    match snapshot::<I>(&ed.mesh) {
        Ok(s) if integrity(&s).is_ok() => {
            ed.max_edges = ed.max_edges.max(s.e.len() + 40);
            ed.cur = s;
            ed.stats.state(ed.cur.shape_hash());
        }
        _ => ed.dead = true,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alg {
    A(TriangulationAlgorithm),
    EarRandom,
}
pub const ALGS: [Alg; 9] = [
    Alg::A(TriangulationAlgorithm::Fan),
    Alg::A(TriangulationAlgorithm::EarClipping),
    Alg::EarRandom,
    Alg::A(TriangulationAlgorithm::Sweep),
    Alg::A(TriangulationAlgorithm::SweepDynamic),
    Alg::A(TriangulationAlgorithm::SweepDelaunay),
    Alg::A(TriangulationAlgorithm::Delaunay),
    Alg::A(TriangulationAlgorithm::MinWeight),
    Alg::A(TriangulationAlgorithm::Auto),
];
pub fn alg_name(a: Alg) -> String {
    match a {
        Alg::A(a) => format!("{a:?}"),
        Alg::EarRandom => "EarClippingRandom".into(),
    }
}

/// Whether the face is a simple planar polygon in general position (within the oracle's margins).
pub fn good(g: &FaceGeo) -> bool {
    let d = g.shape.diam;
    g.shape.simple && d > 0.3 && d < 200.0 && g.planar * d < 1e-11 && g.shape.clearance > 2e-3 && g.shape.sharp > 2e-3
}

/// The corners at which a downward sweep cuts the polygon: reflex ones with both neighbours above or
/// both below.  None if neighbours are too level to tell.
fn turning_corners(v: &[(usize, [f64; 2])]) -> Option<Vec<usize>> {
    let n = v.len();
    let area: f64 = (0..n).map(|i| v[i].1[0] * v[(i + 1) % n].1[1] - v[i].1[1] * v[(i + 1) % n].1[0]).sum();
    let mut res = vec![];
    for i in 0..n {
        let (a, b, c) = (v[(i + n - 1) % n].1, v[i].1, v[(i + 1) % n].1);
        if (a[1] - b[1]).abs() < 1e-6 {
            return None;
        }
        let turn = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]);
        if (a[1] > b[1]) == (c[1] > b[1]) && turn * area < 0.0 {
            res.push(v[i].0);
        }
    }
    Some(res)
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut meta = TesselationMeta::default();
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if poly_step(ed, st) {
            return Ok(());
        }
        if st.op != "tri" {
            return Ok(());
        }
        let s = ed.cur.clone();
        let fs: Vec<usize> = s.f.keys().copied().collect();
        if fs.is_empty() {
            return Ok(());
        }
        let mut buf: Vec<I> = vec![];
        let mut budget = 24;
        for k in 0..fs.len() {
            let f = fs[(k + st.arg(0) as usize) % fs.len()];
            let Some(g) = face_geo(&s, f) else { continue };
            if !good(&g) {
                ed.stats.c("faces-skipped-geometry");
                continue;
            }
            if g.verts.len() == 3 && st.arg(1) % 4 != 0 {
                continue;
            }
            for (ai, alg) in ALGS.iter().enumerate() {
                if *alg == Alg::A(TriangulationAlgorithm::Fan) && !g.shape.convex {
                    continue;
                }
                // Corners on a common line are only guaranteed to work for the sweep
                if g.shape.triple < 1e-6
                    && !matches!(alg, Alg::A(TriangulationAlgorithm::Fan | TriangulationAlgorithm::Sweep | TriangulationAlgorithm::SweepDelaunay))
                {
                    ed.stats.c("skipped-collinear");
                    continue;
                }
                if g.verts.len() > 20 && ai % 3 != st.arg(2) as usize % 3 && matches!(alg, Alg::A(TriangulationAlgorithm::MinWeight | TriangulationAlgorithm::Auto)) {
                    continue;
                }
                // sometimes appended to a buffer that already holds other triangles
                if mix2(st.arg(3), ai as u64) % 3 == 0 {
                    buf.clear();
                }
                let before = buf.clone();
                let name = alg_name(*alg);
                let m = &ed.mesh;
                let res = call_b(30_000_000, || {
                    let face = m.face(mk::<I>(f));
                    let mut tri = Triangulation::new(&mut buf);
                    match alg {
                        Alg::A(a) => triangulate_face::<MT<I>>(face, m, &mut tri, *a, &mut meta),
                        Alg::EarRandom => ear_clipping::<MT<I>>(face, m, &mut tri, true),
                    }
                    tri.len()
                });
                ed.stats.c(&format!("alg:{name}"));
                ed.stats.c("faces-triangulated");
                let what = || format!("{name} on face {f} ({} corners, convex {}, {:?})", g.verts.len(), g.shape.convex, g.p);
                match res {
                    Res::Ok(n) => {
                        if buf.len() < before.len() || buf[..before.len()] != before[..] {
                            return viol(format!("{name}:prefix"), format!("{}: earlier indices changed", what()));
                        }
                        let t: Vec<[usize; 3]> =
                            buf[before.len()..].chunks(3).map(|c| [ix(c[0]), ix(c[1]), ix(c[2])]).collect();
                        if t.len() != n {
                            return viol(format!("{name}:len"), format!("{}: {} triangles, reported {n}", what(), t.len()));
                        }
                        for x in &t {
                            ed.stats.t(mix2(x[0] as u64, mix2(x[1] as u64, x[2] as u64)));
                        }
                        if let Err(e) = check_triangulation(&g, &t) {
                            return viol(format!("{name}:{}", e.split(':').next().unwrap_or("")), format!("{}: {e}", what()));
                        }
                        ed.stats.c("nontrivial");
                        match alg {
                            Alg::A(TriangulationAlgorithm::MinWeight) if g.shape.triple > 1e-4 => {
                                let (is, want) = (diagonal_weight(&g, &t), min_diagonal_weight(&g));
                                ed.stats.c("min-weight-judged");
                                if is > want + 1e-6 * g.shape.diam {
                                    return viol("MinWeight:weight", format!("{}: {is} instead of {want}", what()));
                                }
                            }
                            Alg::A(TriangulationAlgorithm::Delaunay) if g.verts.len() > 4 => {
                                ed.stats.c("delaunay-judged");
                                if let Some(e) = not_delaunay(&g, &t, &[]) {
                                    return viol("Delaunay:quality", format!("{}: {e}", what()));
                                }
                            }
                            Alg::A(a @ (TriangulationAlgorithm::SweepDelaunay | TriangulationAlgorithm::SweepDynamic))
                                if g.verts.len() > 4 && g.shape.triple > 1e-4 =>
                            {
                                let m = &ed.mesh;
                                let v2 = call(|| {
                                    let f = m.face(mk::<I>(f));
                                    f.vec2s(m).iter().map(|v| (ix(v.index), [v.vec[0], v.vec[1]])).collect::<Vec<_>>()
                                });
                                let Res::Ok(v2) = v2 else { continue };
                                let Some(cuts) = turning_corners(&v2) else { continue };
                                ed.stats.c(if cuts.is_empty() { "sweep-monotone-judged" } else { "sweep-pieces-judged" });
                                if *a == TriangulationAlgorithm::SweepDelaunay {
                                    if let Some(e) = not_delaunay(&g, &t, &cuts) {
                                        return viol("SweepDelaunay:quality", format!("{}: {e} ({cuts:?} cut)", what()));
                                    }
                                } else if let Some(e) = not_light(&g, &t, &cuts) {
                                    return viol("SweepDynamic:weight", format!("{}: {e} ({cuts:?} cut)", what()));
                                }
                            }
                            _ => {}
                        }
                    }
                    Res::Panic(p) => return viol(format!("{name}:panic"), format!("{}: {p}", what())),
                    Res::Injected | Res::Budget => return viol(format!("{name}:nontermination"), what()),
                }
            }
            match snapshot::<I>(&ed.mesh) {
                Ok(a) if a.hash() == s.hash() => {}
                _ => return viol("mesh-altered", format!("triangulating face {f} altered the mesh")),
            }
            budget -= 1;
            if budget == 0 {
                break;
            }
        }
        Ok(())
    })
}
