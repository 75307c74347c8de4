//! C08: read operations against the graph the mesh represents.

use super::*;
use crate::by_index;
use crate::env::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = if idx % 16 == 15 { 80 } else { 6 + r.below(40) };
    gen_history(r, sc, len, r.clone().chance(1, 5), 6);
    let n = 2 + r.below(4);
    sprinkle(r, sc, n, &mut |r| {
        let k = *r.pick(&["query", "query", "paths", "local", "matrix"]);
        Step::new(k, &args(r, 3))
    });
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        let s = ed.cur.clone();
        let op = st.op.as_str();
        let r = match op {
            "query" => guard("pairs", || pairs::<I>(&ed.mesh, &s, st)),
            "local" => guard("local", || local::<I>(&ed.mesh, &s)),
            "paths" => guard("paths", || paths::<I>(&ed.mesh, &s, st)),
            "matrix" => matrix::<I>(&ed.mesh, &s),
            _ => return Ok(()),
        };
        let n = r?;
        ed.stats.add(&format!("queries:{op}"), n);
        if n > 0 && s.e.len() > 2 {
            ed.stats.c("nontrivial");
        }
        match snapshot::<I>(&ed.mesh) {
            Ok(a) if a == s => {}
            Ok(a) => return viol("query:altered-mesh", format!("{op}: {:?}", diff(&s, &a))),
            Err(m) => return viol("query:altered-mesh", m),
        }
        ed.stats.t(s.hash() ^ n);
        Ok(())
    })
}

/// Queries on live handles of a well-formed mesh must answer.
fn guard(what: &str, f: impl FnOnce() -> Result<u64, Violation>) -> Result<u64, Violation> {
    match call_b(30_000_000, f) {
        Res::Ok(r) => r,
        o => viol(format!("{what}:failed"), format!("a query on a well-formed mesh failed: {o:?}")),
    }
}

fn pairs<I: Ix>(m: &M<I>, s: &Snap, st: &Step) -> Result<u64, Violation> {
    let vs: Vec<usize> = s.v.keys().copied().collect();
    if vs.is_empty() {
        return Ok(0);
    }
    let nb: BTreeMap<usize, BTreeSet<usize>> = vs.iter().map(|v| (*v, s.neighbors(*v))).collect();
    let fo: BTreeMap<usize, BTreeSet<usize>> = vs.iter().map(|v| (*v, s.faces_of(*v))).collect();
    let mut n = 0;
    for k in 0..vs.len().min(24) {
        let v = vs[(st.arg(0) as usize + k) % vs.len()];
        let iv = mk::<I>(v);
        for j in 0..vs.len().min(24) {
            let w = vs[(st.arg(1) as usize + j) % vs.len()];
            let iw = mk::<I>(w);
            n += 1;
            let want = nb[&v].contains(&w);
            match m.shared_edge_id(iv, iw) {
                Some(e) => {
                    let e = ix(e);
                    if !s.e.contains_key(&e) || s.e[&e].origin != v || s.target(e) != w {
                        return viol("shared_edge_id:wrong", format!("shared_edge_id({v},{w}) = {e}"));
                    }
                }
                None if want => return viol("shared_edge_id:missed", format!("no shared edge {v}->{w}")),
                None => {}
            }
            match m.shared_edge(iv, iw) {
                Some(e) => {
                    let i = ix(e.id());
                    if !s.e.contains_key(&i) || s.e[&i].origin != v || s.target(i) != w {
                        return viol("shared_edge:wrong", format!("shared_edge({v},{w}) = {i}"));
                    }
                }
                None if want => return viol("shared_edge:missed", format!("no shared edge {v}->{w}")),
                None => {}
            }
            let common: Vec<&usize> = fo[&v].intersection(&fo[&w]).collect();
            match m.shared_face(iv, iw) {
                Some(f) => {
                    if !common.contains(&&ix(f)) {
                        return viol("shared_face:wrong", format!("shared_face({v},{w}) = {}", ix(f)));
                    }
                }
                None if !common.is_empty() => {
                    return viol("shared_face:missed", format!("vertices {v},{w} share {common:?}"))
                }
                None => {}
            }
        }
    }
    Ok(n)
}

/// b is a rotation of a
fn rot(a: &[usize], b: &[usize]) -> bool {
    a.len() == b.len()
        && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i])))
}

fn local<I: Ix>(m: &M<I>, s: &Snap) -> Result<u64, Violation> {
    let mut n = 0;
    for (v, _) in &s.v {
        let x = m.vertex(mk::<I>(*v));
        let wheel = s.wheel(*v);
        n += 1;
        let out: Vec<usize> = x.edges_out(m).map(|e| ix(e.id())).collect();
        if !rot(&wheel, &out) {
            return viol("edges_out", format!("vertex {v}: edges_out {out:?}, wheel {wheel:?}"));
        }
        let tw: Vec<usize> = out.iter().map(|e| s.e[e].twin).collect();
        let inn: Vec<usize> = x.edges_in(m).map(|e| ix(e.id())).collect();
        if !rot(&tw, &inn) {
            return viol("edges_in", format!("vertex {v}: edges_in {inn:?}, expected {tw:?}"));
        }
        let nb: Vec<usize> = out.iter().map(|e| s.target(*e)).collect();
        let ids: Vec<usize> = x.neighbor_ids(m).map(ix).collect();
        if !rot(&nb, &ids) {
            return viol("neighbor_ids", format!("vertex {v}: {ids:?}, expected {nb:?}"));
        }
        let vs: Vec<usize> = x.vertices(m).map(|w| ix(w.id())).collect();
        if !rot(&nb, &vs) {
            return viol("vertex.vertices", format!("vertex {v}: {vs:?}, expected {nb:?}"));
        }
        let fs: Vec<usize> = out.iter().map(|e| s.e[e].face).filter(|f| *f != NONE).collect();
        let got: Vec<usize> = x.faces(m).map(|f| ix(f.id())).collect();
        if !rot(&fs, &got) {
            return viol("vertex.faces", format!("vertex {v}: {got:?}, expected {fs:?}"));
        }
        if x.degree(m) != wheel.len() {
            return viol("degree", format!("vertex {v}: degree {} of {}", x.degree(m), wheel.len()));
        }
        if x.has_only_one_edge(m) != (wheel.len() == 1) {
            return viol("has_only_one_edge", format!("vertex {v} of degree {}", wheel.len()));
        }
        if !wheel.is_empty() {
            let b = wheel.iter().any(|e| s.e[e].face == NONE || s.e[&s.e[e].twin].face == NONE);
            if x.is_boundary(m) != b {
                return viol("vertex.is_boundary", format!("vertex {v}: {}", !b));
            }
        }
        let bo = s.boundary_out(*v);
        if bo.len() == 1 {
            if x.outgoing_boundary_edge(m).map(ix) != Some(bo[0]) {
                return viol("outgoing_boundary_edge", format!("vertex {v}: expected {}", bo[0]));
            }
            if x.ingoing_boundary_edge(m).map(ix) != Some(s.e[&bo[0]].prev) {
                return viol("ingoing_boundary_edge", format!("vertex {v}: expected {}", s.e[&bo[0]].prev));
            }
        }
        match x.edge(m) {
            Some(e) => {
                if s.e[&ix(e.id())].origin != *v {
                    return viol("vertex.edge", format!("vertex {v}: edge {}", ix(e.id())));
                }
            }
            None if !wheel.is_empty() => return viol("vertex.edge", format!("vertex {v}: none")),
            None => {}
        }
    }
    for (i, e) in &s.e {
        let x = m.edge(mk::<I>(*i));
        n += 1;
        let lp = s.lp(*i);
        if lp.len() > 40 && i % 17 != 0 {
            continue;
        }
        let f: Vec<usize> = x.edges_face(m).map(|e| ix(e.id())).collect();
        if f != lp {
            return viol("edges_face", format!("edge {i}: {f:?}, loop {lp:?}"));
        }
        let mut back = vec![lp[0]];
        back.extend(lp[1..].iter().rev());
        let b: Vec<usize> = x.edges_face_back(m).map(|e| ix(e.id())).collect();
        if b != back {
            return viol("edges_face_back", format!("edge {i}: {b:?}, expected {back:?}"));
        }
        let mut it = x.edges_face(m);
        for k in 0..=lp.len() {
            if lp.len() > 40 && k % 13 != 1 && k + 1 < lp.len() {
                it.next();
                continue;
            }
            let h = it.size_hint();
            if h != (lp.len() - k, Some(lp.len() - k)) {
                return viol("edges_face.size_hint", format!("edge {i} after {k}: {h:?} of {}", lp.len()));
            }
            it.next();
        }
        let on: BTreeSet<usize> = lp.iter().map(|e| s.e[e].origin).collect();
        // every vertex for a few edges, otherwise only a handful
        for (k, v) in s.v.keys().enumerate() {
            if i % 7 != 0 && k % 5 != i % 5 {
                continue;
            }
            let w = on.contains(v);
            if x.same_face(m, mk::<I>(*v)) != w {
                return viol("same_face", format!("edge {i}, vertex {v}: {}", !w));
            }
            if x.same_face_back(m, mk::<I>(*v)) != w {
                return viol("same_face_back", format!("edge {i}, vertex {v}: {}", !w));
            }
        }
        let t = &s.e[&e.twin];
        let bd = e.face == NONE || t.face == NONE;
        if x.is_boundary(m) != bd || x.is_boundary_self() != (e.face == NONE) {
            return viol("edge.is_boundary", format!("edge {i}: expected {bd}"));
        }
        let fi: BTreeSet<usize> = x.face_ids(m).map(ix).collect();
        let fe: BTreeSet<usize> = [e.face, t.face].into_iter().filter(|f| *f != NONE).collect();
        if fi != fe {
            return viol("edge.face_ids", format!("edge {i}: {fi:?}, expected {fe:?}"));
        }
        let g = |o: Option<&_>| o.map_or(NONE, |f: &<MT<I> as MeshType>::Face| ix(f.id()));
        if g(x.face(m)) != e.face || g(x.other_face(m)) != t.face {
            return viol("edge.face", format!("edge {i}: {} {}", g(x.face(m)), g(x.other_face(m))));
        }
        if ix(x.target_id(m)) != s.target(*i)
            || ix(x.target(m).id()) != s.target(*i)
            || ix(x.origin(m).id()) != e.origin
            || ix(x.origin_id()) != e.origin
            || ix(x.next(m).id()) != e.next
            || ix(x.prev(m).id()) != e.prev
            || ix(x.twin(m).id()) != e.twin
        {
            return viol("edge.ends", format!("edge {i}: ends or links disagree"));
        }
    }
    for (i, _) in &s.f {
        let x = m.face(mk::<I>(*i));
        n += 1;
        let lp = s.face_loop(*i);
        let es: Vec<usize> = x.edges(m).map(|e| ix(e.id())).collect();
        let ids: Vec<usize> = x.edge_ids(m).map(ix).collect();
        if !rot(&lp, &es) || !rot(&lp, &ids) {
            return viol("face.edges", format!("face {i}: {es:?}, loop {lp:?}"));
        }
        let vs: Vec<usize> = x.vertices(m).map(|e| ix(e.id())).collect();
        let vi: Vec<usize> = x.vertex_ids(m).map(ix).collect();
        let o: Vec<usize> = lp.iter().map(|e| s.e[e].origin).collect();
        if !rot(&o, &vs) || !rot(&o, &vi) {
            return viol("face.vertices", format!("face {i}: {vs:?}, loop {o:?}"));
        }
        if x.num_edges(m) != lp.len() || x.num_vertices(m) != lp.len() {
            return viol("face.num_edges", format!("face {i}: {} of {}", x.num_edges(m), lp.len()));
        }
        let mut it = x.vertices(m);
        for k in 0..=lp.len() {
            if lp.len() > 40 && k % 13 != 1 && k + 1 < lp.len() {
                it.next();
                continue;
            }
            let h = it.size_hint();
            if h != (lp.len() - k, Some(lp.len() - k)) || it.len() != lp.len() - k {
                return viol("face.vertices.size_hint", format!("face {i} after {k}: {h:?} of {}", lp.len()));
            }
            it.next();
        }
    }
    Ok(n)
}

fn bfs(s: &Snap, adj: &BTreeMap<usize, Vec<usize>>, v: usize) -> BTreeMap<usize, usize> {
    let _ = s;
    let mut d = BTreeMap::from([(v, 0)]);
    let mut q = VecDeque::from([v]);
    while let Some(x) = q.pop_front() {
        for y in adj.get(&x).into_iter().flatten() {
            if !d.contains_key(y) {
                d.insert(*y, d[&x] + 1);
                q.push_back(*y);
            }
        }
    }
    d
}

fn paths<I: Ix>(m: &M<I>, s: &Snap, st: &Step) -> Result<u64, Violation> {
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let mut adj: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, e) in &s.e {
        adj.entry(e.origin).or_default().push(s.target(*i));
    }
    let mut n = 0;
    for k in 0..vs.len().min(6) {
        let v = vs[(st.arg(0) as usize + k * 3) % vs.len()];
        let d = bfs(s, &adj, v);
        for j in 0..vs.len().min(12) {
            let w = vs[(st.arg(1) as usize + j * 5) % vs.len()];
            n += 1;
            match (m.shortest_path(mk::<I>(v), mk::<I>(w)), d.get(&w)) {
                (None, None) => {}
                (Some(p), Some(l)) => {
                    let p: Vec<usize> = p.into_iter().map(ix).collect();
                    if p.len() != l + 1 {
                        return viol("shortest_path:length", format!("{v}->{w}: {p:?}, distance {l}"));
                    }
                    if p.first() != Some(&v) || p.last() != Some(&w) {
                        return viol("shortest_path:ends", format!("{v}->{w}: {p:?}"));
                    }
                    for x in p.windows(2) {
                        if !adj.get(&x[0]).is_some_and(|a| a.contains(&x[1])) {
                            return viol("shortest_path:gap", format!("{v}->{w}: {p:?}"));
                        }
                    }
                }
                (p, l) => {
                    return viol("shortest_path:reach", format!("{v}->{w}: path {:?}, distance {l:?}", p.map(|p| p.len())))
                }
            }
        }
    }
    Ok(n)
}

fn matrix<I: Ix>(m: &M<I>, s: &Snap) -> Result<u64, Violation> {
    let n = s.v.len();
    let cons = s.v.keys().enumerate().all(|(a, b)| a == *b);
    if m.has_consecutive_vertex_ids() != cons {
        return viol("has_consecutive_vertex_ids", format!("{}", !cons));
    }
    if !cons || n == 0 || n > 60 {
        return Ok(0);
    }
    guard("matrix", || {
        let a = m.adjacency_matrix::<f64>();
        let ae = m.adjacency_matrix_euclidean::<3>();
        let d = m.degree_matrix::<f64>();
        let l = m.laplacian::<f64>();
        let le = m.laplacian_euclidean::<3>();
        let deg: Vec<(usize, usize)> = m.degrees().map(|(v, d)| (ix(v), d)).collect();
        let want: Vec<(usize, usize)> = s.v.keys().map(|v| (*v, s.degree(*v))).collect();
        if deg != want {
            return viol("degrees", format!("{deg:?}, expected {want:?}"));
        }
        for i in 0..n {
            let nb = s.neighbors(i);
            for j in 0..n {
                let w = if nb.contains(&j) { 1.0 } else { 0.0 };
                let dist = (s.v[&i].p.pos - s.v[&j].p.pos).norm();
                let dd = if i == j { s.degree(i) as f64 } else { 0.0 };
                if a[(i, j)] != w {
                    return viol("adjacency_matrix", format!("({i},{j}) = {}", a[(i, j)]));
                }
                if (ae[(i, j)] - w * dist).abs() > 1e-9 * (1.0 + dist) {
                    return viol("adjacency_matrix_euclidean", format!("({i},{j}) = {}", ae[(i, j)]));
                }
                if d[(i, j)] != dd {
                    return viol("degree_matrix", format!("({i},{j}) = {}", d[(i, j)]));
                }
                if l[(i, j)] != dd - w || (le[(i, j)] - (dd - w * dist)).abs() > 1e-9 * (1.0 + dist) {
                    return viol("laplacian", format!("({i},{j}) = {} {}", l[(i, j)], le[(i, j)]));
                }
            }
        }
        Ok((n * n) as u64)
    })
}
