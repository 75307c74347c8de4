//! C10: subdivision of the meshes histories produce.

use super::*;
use crate::by_index;
use crate::env::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(30);
    gen_history(r, sc, len, r.clone().chance(1, 6), 4);
    let n = 1 + r.below(2);
    sprinkle(r, sc, n, &mut |r| {
        // keep-quads?, b, fault
        let fault = if r.chance(1, 2) { 1 + r.below(60) as u64 } else { 0 };
        Step::new("subdivide", &[r.chance(1, 8) as u64, r.below(8) as u64, fault, r.below(1000) as u64])
    });
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

/// Interpolator of the caller: records every request, returns a payload that names it.
struct Inter {
    ledger: RefCell<Vec<[(usize, usize); 3]>>,
    center: V3,
    radius: f64,
    /// what the crate's own interpolators got wrong
    wrong: RefCell<Option<(&'static str, String)>>,
}
impl Inter {
    /// Asks the crate's own interpolators for the same point (and for one with weights of its own).
    fn crosscheck<I: Ix>(&self, mesh: &M<I>, vs: [(usize, I); 3]) {
        let n = self.ledger.borrow().len() as u64;
        let own = vs.map(|(w, v)| (w + (mix2(n, ix(v) as u64) % 5) as usize, v));
        for q in [vs, own] {
            let sum: usize = q.iter().map(|x| x.0).sum();
            if sum == 0 {
                continue;
            }
            let ps = q.map(|x| mesh.vertex(x.1).pos());
            let want = (ps[0] * q[0].0 as f64 + ps[1] * q[1].0 as f64 + ps[2] * q[2].0 as f64) / sum as f64;
            let size = ps.iter().map(|p| p.norm()).fold(1e-300, f64::max);
            let got: VP = VertexInterpolator::<3, MT<I>>::call(&LinearVertexInterpolator::<3> {}, mesh, q);
            if (got.0.pos - want).norm() > 1e-9 * size {
                *self.wrong.borrow_mut() = Some(("linear", format!("{:?} between {ps:?}: {:?}, expected {want:?}", q.map(|x| x.0), got.0.pos)));
            }
        }
        // halfway on the great circle through two points, wherever the two stand in the list
        for i in 0..3 {
            let (a, b) = ((i + 1) % 3, (i + 2) % 3);
            let mut q = vs;
            q[i].0 = 0;
            q[a].0 = 1;
            q[b].0 = 1;
            let d = [a, b].map(|k| mesh.vertex(q[k].1).pos() - self.center);
            if d[0].norm() < 1e-3 || d[1].norm() < 1e-3 {
                continue;
            }
            if (0..3).any(|k| (mesh.vertex(q[k].1).pos() - self.center).norm() < 1e-3) {
                continue;
            }
            let (x, y) = (d[0].normalize(), d[1].normalize());
            if (x + y).norm() < 1e-3 {
                continue;
            }
            let want = self.center + (x + y).normalize() * self.radius;
            let got: VP = VertexInterpolator::<3, MT<I>>::call(&SlerpVertexInterpolator::<3, MT<I>>::new(self.center, self.radius), mesh, q);
            if (got.0.pos - want).norm() > 1e-6 * self.radius {
                *self.wrong.borrow_mut() = Some(("slerp", format!("around {:?} radius {} between {d:?}: {:?}, expected {want:?}", self.center, self.radius, got.0.pos)));
            }
        }
    }
}
fn mid_tag(a: usize, b: usize, n: usize) -> u64 {
    mix2(mix2(a.min(b) as u64, a.max(b) as u64), n as u64) >> 8
}
impl<I: Ix> VertexInterpolator<3, MT<I>> for Inter {
    fn call(&self, mesh: &M<I>, vs: [(usize, I); 3]) -> VP {
        event(Ev::Interp, 0);
        let v = vs.map(|(w, v)| (w, ix(v)));
        let ends: Vec<usize> = v.iter().filter(|x| x.0 != 0).map(|x| x.1).collect();
        self.ledger.borrow_mut().push(v);
        for e in &ends {
            let _ = mesh.vertex(mk::<I>(*e)).payload().clone();
        }
        self.crosscheck(mesh, vs);
        let n = self.ledger.borrow().len();
        let t = if ends.len() == 2 { mid_tag(ends[0], ends[1], n) } else { 1 };
        VP::new(t, V3::new(n as f64, 0.0, 0.0))
    }
}

/// Cyclic sequence in canonical rotation.
pub fn canon(c: &[u64]) -> Vec<u64> {
    (0..c.len().max(1))
        .map(|k| (0..c.len()).map(|i| c[(i + k) % c.len()]).collect::<Vec<u64>>())
        .min()
        .unwrap_or_default()
}

/// All loops of the mesh as cycles of vertex keys: (has face, face payload, cycle)
fn loops(s: &Snap, key: &dyn Fn(usize) -> u64) -> Vec<(bool, u64, Vec<u64>)> {
    let mut seen = BTreeSet::new();
    let mut r = vec![];
    for e in s.e.keys() {
        if seen.contains(e) {
            continue;
        }
        let l = s.lp(*e);
        seen.extend(l.iter().copied());
        let c: Vec<u64> = l.iter().map(|x| key(s.e[x].origin)).collect();
        let f = s.e[e].face;
        r.push((f != NONE, if f == NONE { 0 } else { s.f[&f].p.tag }, canon(&c)));
    }
    r.sort();
    r
}

/// Undirected edges as (smaller half-edge id) that have a face on some side
fn faced(s: &Snap) -> Vec<usize> {
    s.e.iter()
        .filter(|(i, e)| **i < e.twin && (e.face != NONE || s.e[&e.twin].face != NONE))
        .map(|(i, _)| *i)
        .collect()
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if st.op != "subdivide" {
            return Ok(());
        }
        let mut m = match call(|| ed.mesh.clone()) {
            Res::Ok(m) => m,
            _ => return Ok(()),
        };
        // turn the mesh into a triangle mesh through the public operations
        if st.arg(0) == 0 {
            let s = ed.cur.clone();
            for (f, _) in &s.f {
                let l = s.face_loop(*f);
                if l.len() == 3 {
                    continue;
                }
                let r = call(|| {
                    m.remove_face(mk::<I>(*f));
                    let mut inside = mk::<I>(l[0]);
                    for k in 1..l.len().saturating_sub(2) {
                        let (_, _, e) = m.close_face_default(inside, m.edge(mk::<I>(l[k])).next(&m).next_id(), false);
                        let _ = &mut inside;
                        inside = m.edge(e).id();
                        let _ = inside;
                        break;
                    }
                });
                let _ = r;
            }
            // whatever is still not a triangle becomes a hole
            if let Ok(s) = snapshot::<I>(&m) {
                for f in s.f.keys() {
                    if s.face_loop(*f).len() != 3 {
                        let _ = call(|| m.remove_face(mk::<I>(*f)));
                    }
                }
            }
            // triangular holes may be filled
            if let Ok(s) = snapshot::<I>(&m) {
                let mut done = BTreeSet::new();
                for (i, e) in &s.e {
                    let l = s.lp(*i);
                    let distinct: BTreeSet<usize> = l.iter().map(|x| s.e[x].origin).collect();
                    if e.face == NONE && l.len() == 3 && distinct.len() == 3 && !l.iter().any(|x| done.contains(x)) && st.arg(3) % 3 != 0 {
                        done.extend(l);
                        let fp = FP::new(fresh_tag());
                        let _ = call(|| m.close_hole(mk::<I>(*i), fp, false));
                    }
                }
            }
        }
        let s = match snapshot::<I>(&m) {
            Ok(s) if integrity(&s).is_ok() => s,
            _ => {
                ed.stats.c("skipped-malformed");
                return Ok(());
            }
        };
        let tri = s.f.keys().all(|f| s.face_loop(*f).len() == 3);
        // a triangle that visits a vertex twice is not a triangle
        let proper = s.f.keys().all(|f| s.face_verts(*f).iter().collect::<BTreeSet<_>>().len() == 3);
        if tri && !proper {
            ed.stats.c("skipped-degenerate");
            return Ok(());
        }
        let b = match st.arg(1) {
            0..=3 => 0,
            4 => 1,
            5 | 6 => 2,
            _ => 4,
        };
        let fe = faced(&s);
        let levels = match b {
            4 => 2,
            1 => 0,
            _ => 1,
        };
        if s.e.len() > (if levels == 2 { 120 } else { 400 }) {
            return Ok(());
        }
        let est_e = s.e.len() + 2 * fe.len() + 6 * s.f.len();
        if I::CAP < 1000 && (est_e > I::CAP || levels == 2) {
            return Ok(());
        }
        let inter = Inter {
            ledger: RefCell::new(vec![]),
            center: if st.arg(3) % 4 == 1 { V3::zeros() } else { V3::new(0.3, -0.7, 0.1 + st.arg(3) as f64 * 1e-2) },
            radius: [1.0, 0.25, 3.5][st.arg(3) as usize % 3],
            wrong: RefCell::new(None),
        };
        if st.arg(2) > 0 {
            arm(st.arg(2));
        }
        let res = call_b(20_000_000, || {
            if b == 0 {
                m.loop_subdivision(&inter);
            } else {
                struct By<'a>(&'a Inter);
                impl<I: Ix> VertexInterpolator<3, MT<I>> for By<'_> {
                    fn call(&self, mesh: &M<I>, vs: [(usize, I); 3]) -> VP {
                        VertexInterpolator::<3, MT<I>>::call(self.0, mesh, vs)
                    }
                }
                m.subdivision_frequency(SubdivisionDescription::new(b, 0), By(&inter));
            }
        });
        let fired = st.arg(2) > 0 && !disarm();
        if let Some((k, d)) = inter.wrong.borrow_mut().take() {
            return viol(format!("subdivide:interpolator:{k}"), d);
        }
        let what = if b == 0 { "loop_subdivision".to_string() } else { format!("subdivision_frequency({b})") };
        let a = match snapshot::<I>(&m) {
            Ok(a) => a,
            Err(e) => return viol("subdivide:unreadable", format!("{what}: {e}")),
        };
        ed.stats.t(a.hash());
        ed.stats.state(a.shape_hash());
        ed.stats.c(&format!("subdivide:{}", res.name()));
        if let Err(e) = integrity(&a) {
            let k = match res {
                Res::Ok(_) => "integrity",
                Res::Injected => "abort-integrity",
                _ => "refuse-integrity",
            };
            return viol(format!("subdivide:{k}"), format!("{what} ({}): {e}", res.name()));
        }
        for (i, v) in &s.v {
            match a.v.get(i) {
                Some(x) if x.p.bits() == v.p.bits() => {}
                _ => return viol("subdivide:original-vertex", format!("{what}: vertex {i} lost or changed")),
            }
        }
        match res {
            Res::Budget => return viol("subdivide:nontermination", what),
            Res::Injected => {
                ed.stats.c("aborted-by-fault");
                ed.stats.c("nontrivial");
                // the mesh stays usable
                let n = a.v.len();
                let r = call(|| m.insert_path_probe());
                if let (Res::Panic(p), true) = (&r, I::CAP > 1000) {
                    return viol("subdivide:unusable", format!("{what}, then add_vertex: {p}"));
                }
                let _ = n;
                return Ok(());
            }
            Res::Panic(p) => {
                if tri {
                    // a second level may exceed small index types only; excluded above
                    return viol("subdivide:refused-triangles", format!("{what} of a triangle mesh panicked: {p}"));
                }
                ed.stats.c("refused-non-triangle");
                ed.stats.c("nontrivial");
                return Ok(());
            }
            Res::Ok(_) => {}
        }
        if !tri && levels > 0 {
            return viol("subdivide:accepted-non-triangle", format!("{what} accepted a mesh with a non-triangular face"));
        }
        if fired {
            return viol("subdivide:fault-swallowed", what);
        }
        if s.f.len() > 0 && levels > 0 {
            ed.stats.c("nontrivial");
            if s.e.values().any(|e| e.face == NONE) {
                ed.stats.c("open-meshes");
            } else {
                ed.stats.c("closed-meshes");
            }
        }
        // ---- reference refinement, level by level
        let ledger = inter.ledger.into_inner();
        if levels == 0 {
            return match diff(&s, &a) {
                Some(d) => viol("subdivide:identity", format!("{what}: {d}")),
                None => Ok(()),
            };
        }
        let first = &ledger[..fe.len().min(ledger.len())];
        // (1) the interpolator is asked once per undirected edge with equal weights of its ends
        let mut want: BTreeMap<(usize, usize), i64> = BTreeMap::new();
        for e in &fe {
            let (x, y) = (s.e[e].origin, s.target(*e));
            *want.entry((x.min(y), x.max(y))).or_default() += 1;
        }
        for c in first {
            let ends: Vec<&(usize, usize)> = c.iter().filter(|x| x.0 != 0).collect();
            if ends.len() != 2 || ends[0].0 != ends[1].0 {
                return viol("subdivide:weights", format!("{what}: interpolator called with {c:?}"));
            }
            let (x, y) = (ends[0].1, ends[1].1);
            *want.entry((x.min(y), x.max(y))).or_default() -= 1;
        }
        if let Some((k, n)) = want.iter().find(|(_, n)| **n != 0) {
            return viol("subdivide:interpolator-calls", format!("{what}: edge {k:?} asked {} times too few", n));
        }
        if levels == 1 {
            if ledger.len() != fe.len() {
                return viol("subdivide:interpolator-calls", format!("{what}: {} calls for {} edges", ledger.len(), fe.len()));
            }
            if a.v.len() != s.v.len() + fe.len() {
                return viol("subdivide:vertex-count", format!("{what}: {} vertices, expected {}", a.v.len(), s.v.len() + fe.len()));
            }
            // key of a vertex: original id, or the edge its payload was made for
            let mut bykey: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
            for (n, c) in ledger.iter().enumerate() {
                let e: Vec<usize> = c.iter().filter(|x| x.0 != 0).map(|x| x.1).collect();
                bykey.insert(mid_tag(e[0], e[1], n + 1), (e[0].min(e[1]), e[0].max(e[1])));
            }
            let pairkey = |x: usize, y: usize| mix2(7, mix2(x.min(y) as u64, x.max(y) as u64)) | 1 << 63;
            let mut used: BTreeMap<u64, usize> = BTreeMap::new();
            for (i, v) in &a.v {
                if s.v.contains_key(i) {
                    continue;
                }
                if !bykey.contains_key(&v.p.tag) {
                    return viol("subdivide:new-vertex-payload", format!("{what}: vertex {i} has a payload nobody gave"));
                }
                *used.entry(v.p.tag).or_default() += 1;
            }
            if let Some((t, _)) = bykey.iter().find(|(t, _)| used.get(t) != Some(&1)) {
                return viol("subdivide:new-vertex-payload", format!("{what}: payload for edge {:?} used {:?} times", bykey[t], used.get(t)));
            }
            let key = |v: usize| -> u64 {
                if s.v.contains_key(&v) {
                    v as u64
                } else {
                    let (x, y) = bykey[&a.v[&v].p.tag];
                    pairkey(x, y)
                }
            };
            let got = loops(&a, &key);
            let isf: BTreeSet<usize> = fe.iter().flat_map(|e| [*e, s.e[e].twin]).collect();
            let mut exp: Vec<(bool, u64, Vec<u64>)> = vec![];
            let mut seen = BTreeSet::new();
            for (i, e) in &s.e {
                if seen.contains(i) {
                    continue;
                }
                let l = s.lp(*i);
                seen.extend(l.iter().copied());
                let o: Vec<usize> = l.iter().map(|x| s.e[x].origin).collect();
                if e.face == NONE {
                    let mut c = vec![];
                    for (k, x) in l.iter().enumerate() {
                        c.push(o[k] as u64);
                        if isf.contains(x) {
                            c.push(pairkey(o[k], o[(k + 1) % o.len()]));
                        }
                    }
                    exp.push((false, 0, canon(&c)));
                } else {
                    let t = s.f[&e.face].p.tag;
                    let m: Vec<u64> = (0..3).map(|k| pairkey(o[k], o[(k + 1) % 3])).collect();
                    for k in 0..3 {
                        exp.push((true, t, canon(&[o[k] as u64, m[k], m[(k + 2) % 3]])));
                    }
                    exp.push((true, t, canon(&m)));
                }
            }
            exp.sort();
            if got != exp {
                let x = exp.iter().find(|x| !got.contains(x));
                let y = got.iter().find(|x| !exp.contains(x));
                return viol("subdivide:refinement", format!("{what}: missing loop {x:?}, unexpected loop {y:?}"));
            }
        } else {
            // two levels: the same counts a repeated loop subdivision has, and the boundary
            let (v0, e0, f0) = (s.v.len(), fe.len(), s.f.len());
            let (v1, e1, f1) = (v0 + e0, 2 * e0 + 3 * f0, 4 * f0);
            let (v2, f2) = (v1 + e1, 4 * f1);
            if a.v.len() != v2 || a.f.len() != f2 || ledger.len() != e0 + e1 {
                return viol(
                    "subdivide:counts",
                    format!("{what}: v {} f {} calls {}, expected {v2} {f2} {}", a.v.len(), a.f.len(), ledger.len(), e0 + e1),
                );
            }
            let key = |v: usize| if s.v.contains_key(&v) { v as u64 } else { u64::MAX };
            let mut got: Vec<Vec<u64>> = loops(&a, &key).into_iter().filter(|x| !x.0).map(|x| x.2).collect();
            let isf: BTreeSet<usize> = fe.iter().flat_map(|e| [*e, s.e[e].twin]).collect();
            let mut exp = vec![];
            let mut seen = BTreeSet::new();
            for (i, e) in &s.e {
                if e.face != NONE || seen.contains(i) {
                    continue;
                }
                let l = s.lp(*i);
                seen.extend(l.iter().copied());
                let mut c = vec![];
                for x in &l {
                    c.push(s.e[x].origin as u64);
                    if isf.contains(x) {
                        c.extend([u64::MAX; 3]);
                    }
                }
                exp.push(canon(&c));
            }
            got.sort();
            exp.sort();
            if got != exp {
                return viol("subdivide:boundary", format!("{what}: boundary loops {got:?}, expected {exp:?}"));
            }
            let mut tags: BTreeMap<u64, i64> = BTreeMap::new();
            for f in s.f.values() {
                *tags.entry(f.p.tag).or_default() += 16;
            }
            for (i, f) in &a.f {
                *tags.entry(f.p.tag).or_default() -= 1;
                if a.face_loop(*i).len() != 3 {
                    return viol("subdivide:not-triangles", format!("{what}: face {i}"));
                }
            }
            if tags.values().any(|x| *x != 0) {
                return viol("subdivide:face-payload", format!("{what}: face payloads not inherited"));
            }
            if a.components() != s.components() {
                return viol("subdivide:components", what);
            }
        }
        // the result replaces the mesh under simulation sometimes
        if st.arg(3) % 2 == 0 && a.e.len() < 300 {
            ed.mesh = m;
            ed.cur = a;
        }
        Ok(())
    })
}

trait Probe {
    fn insert_path_probe(&mut self);
}
impl<I: Ix> Probe for M<I> {
    fn insert_path_probe(&mut self) {
        self.add_vertex(VP::new(1, V3::zeros()));
    }
}
