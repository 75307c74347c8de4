//! C06: exported buffers and normals of the meshes histories produce.

use super::tri::*;
use super::*;
use crate::by_index;
use crate::env::*;
use crate::geom::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::mesh::*;
use procedural_modelling::tesselate::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(30);
    // aborted insertions leave holes in the id space
    gen_history(r, sc, len, r.clone().chance(1, 2), 3);
    gen_polys(r, sc, 3);
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| {
        let fault = if r.chance(1, 3) { 1 + r.below(40) as u64 } else { 0 };
        let mut a = args(r, 4);
        a.push(fault);
        Step::new("export", &a)
    });
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn unit(a: V3) -> Option<V3> {
    let l = a.dot(&a).sqrt();
    (l > 1e-300 && l.is_finite()).then(|| a / l)
}

fn same_vpd(a: &VPd, b: &VPd) -> bool {
    a.tag == b.tag && a.bits() == b.bits()
}
fn same_but_normal(a: &VPd, b: &VPd) -> bool {
    let mut c = b.clone();
    c.nrm = a.nrm;
    same_vpd(a, &c)
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut meta = TesselationMeta::default();
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if poly_step(ed, st) || st.op != "export" {
            return Ok(());
        }
        let mut m = match call(|| ed.mesh.clone()) {
            Res::Ok(m) => m,
            _ => return Ok(()),
        };
        // faces no algorithm promises anything about become holes
        let mut convex = true;
        let mut generic = true;
        let mut geo: BTreeMap<usize, FaceGeo> = BTreeMap::new();
        for f in ed.cur.f.keys() {
            match face_geo(&ed.cur, *f) {
                Some(g) if good(&g) && g.verts.len() <= 16 => {
                    convex &= g.shape.convex;
                    generic &= g.shape.triple > 1e-6;
                    geo.insert(*f, g);
                }
                _ => {
                    let _ = call(|| m.remove_face(mk::<I>(*f)));
                    ed.stats.c("faces-removed-geometry");
                }
            }
        }
        let s = match snapshot::<I>(&m) {
            Ok(s) if integrity(&s).is_ok() && s.f.keys().eq(geo.keys()) => s,
            _ => return Ok(()),
        };
        let order: Vec<usize> = m.vertex_ids().map(ix).collect();
        let faces: Vec<usize> = m.face_ids().map(ix).collect();
        if order.iter().copied().collect::<BTreeSet<_>>() != s.v.keys().copied().collect()
            || faces.iter().copied().collect::<BTreeSet<_>>() != s.f.keys().copied().collect()
        {
            return Ok(()); // C01's business
        }
        let sparse = order.iter().max().is_some_and(|x| x + 1 != order.len());
        if sparse {
            ed.stats.c("sparse-ids");
        }
        let algs: Vec<TriangulationAlgorithm> = {
            use TriangulationAlgorithm::*;
            let mut a = vec![Sweep, SweepDelaunay];
            if generic {
                a.extend([EarClipping, SweepDynamic, Delaunay, MinWeight, Auto]);
            }
            if convex {
                a.push(Fan);
            }
            a
        };
        let alg = algs[st.arg(0) as usize % algs.len()];
        let what = format!("{alg:?}, {} vertices, {} faces", s.v.len(), s.f.len());
        let fault = st.arg(4);
        let unchanged = |m: &M<I>, by: &str| match snapshot::<I>(m) {
            Ok(a) if a.hash() == s.hash() => Ok(()),
            _ => viol(format!("{by}:altered"), format!("{by} altered the mesh ({what})")),
        };

        // ---- triangulate
        if fault != 0 {
            arm(fault);
        }
        let res = call_b(50_000_000, || m.triangulate(alg, &mut meta));
        disarm();
        unchanged(&m, "triangulate")?;
        let res = match res {
            Res::Injected => {
                ed.stats.c("export-retried-after-fault");
                call_b(50_000_000, || m.triangulate(alg, &mut meta))
            }
            r => r,
        };
        let (idx, buf) = match res {
            Res::Ok(r) => r,
            Res::Panic(p) => return viol("triangulate:panic", format!("{what}: {p}")),
            _ => return viol("triangulate:nontermination", what.clone()),
        };
        check_buffer(&s, &order, &buf).or_else(|e| viol("triangulate:vertices", format!("{what}: {e}")))?;
        let mut at = 0;
        for f in &faces {
            let g = &geo[f];
            let n = 3 * (g.verts.len() - 2);
            if idx.len() < at + n {
                return viol("triangulate:count", format!("{what}: {} indices are too few", idx.len()));
            }
            let mut t = vec![];
            for c in idx[at..at + n].chunks(3) {
                let mut x = [0; 3];
                for k in 0..3 {
                    x[k] = match order.get(ix(c[k])) {
                        Some(v) => *v,
                        None => return viol("triangulate:range", format!("{what}: index {} of {}", ix(c[k]), order.len())),
                    };
                }
                t.push(x);
            }
            if let Err(e) = check_triangulation(g, &t) {
                return viol(format!("triangulate:{}", e.split(':').next().unwrap_or("")), format!("{what}, face {f}: {e}"));
            }
            at += n;
        }
        if at != idx.len() {
            return viol("triangulate:count", format!("{what}: {} indices instead of {at}", idx.len()));
        }
        if !faces.is_empty() {
            ed.stats.c("nontrivial");
        }
        ed.stats.t(mix2(idx.iter().fold(1, |a, i| mix2(a, ix(*i) as u64)), s.hash()));

        // ---- flat normals
        let corners: usize = geo.values().map(|g| g.verts.len()).sum();
        if fault != 0 {
            arm(fault);
        }
        let res = call_b(50_000_000, || m.triangulate_and_generate_flat_normals_post(alg, &mut meta));
        disarm();
        unchanged(&m, "flat")?;
        let res = match res {
            Res::Injected => call_b(50_000_000, || m.triangulate_and_generate_flat_normals_post(alg, &mut meta)),
            r => r,
        };
        match res {
            Res::Ok((idx, buf)) => {
                check_flat::<I>(&s, &faces, &geo, &idx, &buf).or_else(|(k, e)| viol(format!("flat:{k}"), format!("{what}: {e}")))?
            }
            Res::Panic(_) if corners >= I::CAP => ed.stats.c("flat-index-exhausted"),
            Res::Panic(p) => return viol("flat:panic", format!("{what}: {p}")),
            _ => return viol("flat:nontermination", what.clone()),
        }

        // ---- dense_vertices with a caller's index list
        if !order.is_empty() {
            let n = st.arg(1) as usize % 40;
            let mut r = Rng::new(mix2(st.arg(1), st.arg(2)));
            let old: Vec<usize> = (0..n).map(|_| order[r.below(order.len())]).collect();
            let mut list: Vec<I> = old.iter().map(|v| mk::<I>(*v)).collect();
            match call(|| m.dense_vertices(&mut list)) {
                Res::Ok(buf) => {
                    check_buffer(&s, &order, &buf).or_else(|e| viol("dense:vertices", format!("{what}: {e}")))?;
                    for (k, v) in old.iter().enumerate() {
                        if list.len() != n || order.get(ix(list[k])) != Some(v) {
                            return viol("dense:indices", format!("index {k} named vertex {v}, the new one {} does not", list.get(k).map_or(0, |i| ix(*i))));
                        }
                    }
                    ed.stats.c("dense-checked");
                }
                Res::Panic(p) => return viol("dense:panic", format!("{what}: {p}")),
                _ => return viol("dense:nontermination", what.clone()),
            }
            unchanged(&m, "dense")?;
        }

        // ---- smooth normals
        if fault != 0 {
            arm(fault);
        }
        let res = call(|| {
            m.generate_smooth_normals();
        });
        disarm();
        let after = |m: &M<I>| snapshot::<I>(m).map_err(|e| Violation { key: "smooth:altered".into(), detail: e });
        let only_normals = |a: &Snap| {
            let mut b = a.clone();
            for (i, v) in b.v.iter_mut() {
                if let Some(o) = s.v.get(i) {
                    v.p.nrm = o.p.nrm;
                }
            }
            if b.hash() == s.hash() {
                Ok(())
            } else {
                viol("smooth:altered", format!("generate_smooth_normals altered more than normals ({what})"))
            }
        };
        let res = match res {
            Res::Injected => {
                only_normals(&after(&m)?)?;
                call(|| {
                    m.generate_smooth_normals();
                })
            }
            r => r,
        };
        match res {
            Res::Ok(()) => {
                let a = after(&m)?;
                only_normals(&a)?;
                for (i, v) in &a.v {
                    let fs: Vec<usize> = s.out(*i).iter().map(|e| s.e[e].face).filter(|f| *f != NONE).collect();
                    let mut d = fs.clone();
                    d.sort();
                    d.dedup();
                    if d.len() != fs.len() {
                        continue;
                    }
                    if fs.is_empty() {
                        if v.p.nrm != s.v[i].p.nrm {
                            return viol("smooth:faceless", format!("vertex {i} has no face but got the normal {:?}", v.p.nrm));
                        }
                        continue;
                    }
                    let mut sum = V3::zeros();
                    for f in &fs {
                        sum += geo[f].normal;
                    }
                    let mean = sum / fs.len() as f64;
                    if mean.dot(&mean).sqrt() < 1e-3 {
                        continue;
                    }
                    let want = unit(mean).unwrap();
                    let e = v.p.nrm - want;
                    if !(e.dot(&e).sqrt() < 1e-8) {
                        return viol("smooth:normal", format!("vertex {i} got {:?} instead of {want:?}", v.p.nrm));
                    }
                    ed.stats.c("smooth-normals-judged");
                }
            }
            Res::Panic(p) => return viol("smooth:panic", format!("{what}: {p}")),
            _ => return viol("smooth:nontermination", what.clone()),
        }
        Ok(())
    })
}

/// The buffer holds exactly the live vertices' payloads in iteration order.
fn check_buffer(s: &Snap, order: &[usize], buf: &[VP]) -> Result<(), String> {
    if buf.len() != order.len() {
        return Err(format!("{} payloads for {} vertices", buf.len(), order.len()));
    }
    for (k, v) in order.iter().enumerate() {
        if !same_vpd(&buf[k].0, &s.v[v].p) {
            return Err(format!("entry {k} is {:?}, vertex {v} holds {:?}", buf[k], s.v[v].p));
        }
    }
    Ok(())
}

fn check_flat<I: Ix>(
    s: &Snap,
    faces: &[usize],
    geo: &BTreeMap<usize, FaceGeo>,
    idx: &[I],
    buf: &[VP],
) -> Result<(), (&'static str, String)> {
    let corners: usize = geo.values().map(|g| g.verts.len()).sum();
    if buf.len() != corners {
        return Err(("count", format!("{} vertices for {corners} corners", buf.len())));
    }
    let (mut at, mut base) = (0, 0);
    for f in faces {
        let g = &geo[f];
        let n = g.verts.len();
        // one entry per corner, in any order
        let mut own = g.verts.clone();
        let mut at_entry = vec![];
        for k in base..base + n {
            let p = &buf[k].0;
            let Some(o) = own.iter().position(|v| same_but_normal(p, &s.v[v].p)) else {
                return Err(("corner", format!("entry {k} ({p:?}) is not a corner of face {f} or comes twice")));
            };
            let v = own.remove(o);
            let e = p.nrm - g.normal;
            if !(e.dot(&e).sqrt() < 1e-8) {
                return Err(("normal", format!("entry {k} of face {f} has normal {:?} instead of {:?}", p.nrm, g.normal)));
            }
            at_entry.push(v);
        }
        let m = 3 * (n - 2);
        if idx.len() < at + m {
            return Err(("count", format!("{} indices are too few", idx.len())));
        }
        let mut t = vec![];
        for c in idx[at..at + m].chunks(3) {
            let mut x = [0; 3];
            for k in 0..3 {
                let i = ix(c[k]);
                if i < base || i >= base + n {
                    return Err(("foreign", format!("face {f} (entries {base}..{}) uses entry {i}", base + n)));
                }
                x[k] = at_entry[i - base];
            }
            t.push(x);
        }
        check_triangulation(g, &t).map_err(|e| ("triangles", format!("face {f}: {e}")))?;
        at += m;
        base += n;
    }
    if at != idx.len() {
        return Err(("count", format!("{} indices instead of {at}", idx.len())));
    }
    Ok(())
}
