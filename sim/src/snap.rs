//! Plain-data image of a mesh, read through the public API, and pure checks over it.

use crate::env::{call_b, Res};
use crate::rng::mix2;
use crate::types::*;
use procedural_modelling::math::IndexType;
use procedural_modelling::mesh::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SV {
    pub edge: usize,
    pub p: VPd,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SE {
    pub next: usize,
    pub prev: usize,
    pub twin: usize,
    pub origin: usize,
    pub face: usize,
    pub p: EPd,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SF {
    pub edge: usize,
    pub curved: bool,
    pub p: FPd,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Snap {
    pub v: BTreeMap<usize, SV>,
    pub e: BTreeMap<usize, SE>,
    pub f: BTreeMap<usize, SF>,
    pub mp: u64,
}

pub fn ix<I: Ix>(i: I) -> usize {
    if i == <I as IndexType>::max() {
        NONE
    } else {
        i.index()
    }
}
pub fn mk<I: Ix>(i: usize) -> I {
    if i >= I::CAP {
        <I as IndexType>::max()
    } else {
        I::new(i)
    }
}

/// Reads every live element of the mesh. Err if iteration itself contradicts itself.
pub fn snapshot<I: Ix>(m: &M<I>) -> Result<Snap, String> {
    let r = call_b(1_000_000, || {
        let mut s = Snap::default();
        for v in m.vertices() {
            let sv = SV {
                edge: ix(v.edge_id(m)),
                p: v.payload().0,
            };
            if s.v.insert(ix(v.id()), sv).is_some() {
                return Err(format!("vertex id {} iterated twice", v.id()));
            }
        }
        for e in m.edges() {
            let se = SE {
                next: ix(e.next_id()),
                prev: ix(e.prev_id()),
                twin: ix(e.twin_id()),
                origin: ix(e.origin_id()),
                face: ix(e.face_id()),
                p: e.payload().0,
            };
            if s.e.insert(ix(e.id()), se).is_some() {
                return Err(format!("edge id {} iterated twice", e.id()));
            }
        }
        for f in m.faces() {
            let sf = SF {
                edge: ix(f.edge_id()),
                curved: f.may_be_curved(),
                p: f.payload().0,
            };
            if s.f.insert(ix(f.id()), sf).is_some() {
                return Err(format!("face id {} iterated twice", f.id()));
            }
        }
        s.mp = m.payload().0.tag;
        Ok(s)
    });
    match r {
        Res::Ok(x) => x,
        o => Err(format!("reading the mesh failed: {:?}", o.name())),
    }
}

impl Snap {
    pub fn target(&self, e: usize) -> usize {
        self.e[&self.e[&e].twin].origin
    }
    pub fn out(&self, v: usize) -> Vec<usize> {
        self.e
            .iter()
            .filter(|(_, e)| e.origin == v)
            .map(|(i, _)| *i)
            .collect()
    }
    pub fn degree(&self, v: usize) -> usize {
        self.e.values().filter(|e| e.origin == v).count()
    }
    /// outgoing half-edges of v that have no face on their left
    pub fn boundary_out(&self, v: usize) -> Vec<usize> {
        self.e
            .iter()
            .filter(|(_, e)| e.origin == v && e.face == NONE)
            .map(|(i, _)| *i)
            .collect()
    }
    pub fn between(&self, v: usize, w: usize) -> Option<usize> {
        self.e
            .iter()
            .find(|(i, e)| e.origin == v && self.target(**i) == w)
            .map(|(i, _)| *i)
    }
    /// the next-orbit starting at e
    pub fn lp(&self, e: usize) -> Vec<usize> {
        let mut r = vec![e];
        let mut c = self.e[&e].next;
        while c != e {
            r.push(c);
            if r.len() > self.e.len() + 1 {
                break;
            }
            c = self.e[&c].next;
        }
        r
    }
    /// wheel of v in rotation order starting at its representative: e -> twin -> next
    pub fn wheel(&self, v: usize) -> Vec<usize> {
        let s = self.v[&v].edge;
        if s == NONE {
            return vec![];
        }
        let mut r = vec![s];
        let mut c = self.e[&self.e[&s].twin].next;
        while c != s && r.len() <= self.e.len() + 1 {
            r.push(c);
            c = self.e[&self.e[&c].twin].next;
        }
        r
    }
    pub fn neighbors(&self, v: usize) -> BTreeSet<usize> {
        self.out(v).iter().map(|e| self.target(*e)).collect()
    }
    pub fn faces_of(&self, v: usize) -> BTreeSet<usize> {
        self.e
            .values()
            .filter(|e| e.origin == v && e.face != NONE)
            .map(|e| e.face)
            .collect()
    }
    pub fn face_loop(&self, f: usize) -> Vec<usize> {
        self.lp(self.f[&f].edge)
    }
    /// vertices in the order the crate reports them for a face (targets along the loop)
    pub fn face_verts(&self, f: usize) -> Vec<usize> {
        self.face_loop(f).iter().map(|e| self.target(*e)).collect()
    }
    pub fn components(&self) -> usize {
        let mut seen = BTreeSet::new();
        let mut n = 0;
        let mut adj: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, e) in &self.e {
            adj.entry(e.origin).or_default().push(self.target(*i));
        }
        for v in self.v.keys() {
            if seen.insert(*v) {
                n += 1;
                let mut st = vec![*v];
                while let Some(x) = st.pop() {
                    for y in adj.get(&x).into_iter().flatten() {
                        if seen.insert(*y) {
                            st.push(*y);
                        }
                    }
                }
            }
        }
        n
    }

    /// full content hash (ids, links, payloads)
    pub fn hash(&self) -> u64 {
        let mut h = self.mp;
        for (i, v) in &self.v {
            h = mix2(h, *i as u64);
            h = mix2(h, v.edge as u64);
            for b in v.p.bits() {
                h = mix2(h, b);
            }
        }
        for (i, e) in &self.e {
            for x in [*i, e.next, e.prev, e.twin, e.origin, e.face] {
                h = mix2(h, x as u64);
            }
            h = mix2(h, e.p.tag);
        }
        for (i, f) in &self.f {
            for x in [*i, f.edge, f.curved as usize] {
                h = mix2(h, x as u64);
            }
            h = mix2(h, f.p.tag);
        }
        h
    }

    /// hash of the shape only (links up to ids' numeric values, no payloads): state-coverage measure
    pub fn shape_hash(&self) -> u64 {
        let mut h = self.v.len() as u64;
        for (i, e) in &self.e {
            for x in [*i, e.next, e.twin, e.origin, e.face] {
                h = mix2(h, x as u64);
            }
        }
        h
    }
}

/// C01: structural invariants of the half-edge data structure.
pub fn integrity(s: &Snap) -> Result<(), String> {
    for (i, e) in &s.e {
        let i = *i;
        for (name, x) in [("twin", e.twin), ("next", e.next), ("prev", e.prev)] {
            if !s.e.contains_key(&x) {
                return Err(format!("edge {i}: {name} {x} is not a live edge"));
            }
        }
        if !s.v.contains_key(&e.origin) {
            return Err(format!("edge {i}: origin {} is not a live vertex", e.origin));
        }
        if e.face != NONE && !s.f.contains_key(&e.face) {
            return Err(format!("edge {i}: face {} is not a live face", e.face));
        }
        if e.twin == i {
            return Err(format!("edge {i} is its own twin"));
        }
        if s.e[&e.twin].twin != i {
            return Err(format!("edge {i}: twin of twin is {}", s.e[&e.twin].twin));
        }
        if s.e[&e.next].prev != i {
            return Err(format!("edge {i}: prev of next is {}", s.e[&e.next].prev));
        }
        if s.e[&e.prev].next != i {
            return Err(format!("edge {i}: next of prev is {}", s.e[&e.prev].next));
        }
        if s.e[&e.next].face != e.face {
            return Err(format!("edge {i}: face {} but next has {}", e.face, s.e[&e.next].face));
        }
        if s.e[&e.twin].origin != s.e[&e.next].origin {
            return Err(format!(
                "edge {i}: twin starts at {} but next at {}",
                s.e[&e.twin].origin, s.e[&e.next].origin
            ));
        }
    }
    let mut out: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (i, e) in &s.e {
        out.entry(e.origin).or_default().insert(*i);
    }
    for (i, v) in &s.v {
        let o = out.get(i);
        if v.edge == NONE {
            if o.is_some() {
                return Err(format!("vertex {i} has no edge reference but outgoing edges {o:?}"));
            }
            continue;
        }
        let Some(e) = s.e.get(&v.edge) else {
            return Err(format!("vertex {i}: edge {} is not live", v.edge));
        };
        if e.origin != *i {
            return Err(format!("vertex {i}: edge {} starts at {}", v.edge, e.origin));
        }
        let w = s.wheel(*i);
        let ws: BTreeSet<usize> = w.iter().copied().collect();
        if ws.len() != w.len() || Some(&ws) != o {
            return Err(format!("vertex {i}: wheel {w:?} but outgoing edges {o:?}"));
        }
    }
    let mut fe: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (i, e) in &s.e {
        if e.face != NONE {
            fe.entry(e.face).or_default().insert(*i);
        }
    }
    for (i, f) in &s.f {
        if !s.e.contains_key(&f.edge) {
            return Err(format!("face {i}: edge {} is not live", f.edge));
        }
        if s.e[&f.edge].face != *i {
            return Err(format!("face {i}: edge {} has face {}", f.edge, s.e[&f.edge].face));
        }
        let l: BTreeSet<usize> = s.lp(f.edge).into_iter().collect();
        if Some(&l) != fe.get(i) {
            return Err(format!("face {i}: loop {l:?} but edges with that face {:?}", fe.get(i)));
        }
    }
    for (i, v) in &s.v {
        if v.p.tag & ALLOC != 0 {
            return Err(format!("vertex {i} carries an unset (allocated-only) payload"));
        }
    }
    for (i, e) in &s.e {
        if e.p.tag & ALLOC != 0 {
            return Err(format!("edge {i} carries an unset (allocated-only) payload"));
        }
    }
    for (i, f) in &s.f {
        if f.p.tag & ALLOC != 0 {
            return Err(format!("face {i} carries an unset (allocated-only) payload"));
        }
    }
    Ok(())
}

/// C01: counts, lookup and predicates describe the same element set as iteration.
pub fn api_agreement<I: Ix>(m: &M<I>, s: &Snap, probe: u64) -> Result<(), String> {
    let r = call_b(2_000_000, || -> Result<(), String> {
        if m.num_vertices() != s.v.len() {
            return Err(format!("num_vertices {} but {} live", m.num_vertices(), s.v.len()));
        }
        if m.num_edges() != s.e.len() {
            return Err(format!("num_edges {} but {} live", m.num_edges(), s.e.len()));
        }
        if m.num_faces() != s.f.len() {
            return Err(format!("num_faces {} but {} live", m.num_faces(), s.f.len()));
        }
        let open = s.e.values().any(|e| e.face == NONE);
        if m.is_open() != open {
            return Err(format!("is_open {} but boundary edge exists: {open}", m.is_open()));
        }
        if let Some((mx, _)) = s.v.iter().next_back() {
            if m.max_vertex_index() < *mx {
                return Err(format!("max_vertex_index {} < {mx}", m.max_vertex_index()));
            }
        }
        let hi = s.v.keys().next_back().copied().unwrap_or(0) + 3;
        for i in 0..hi.min(I::CAP) {
            if m.has_vertex(mk::<I>(i)) != s.v.contains_key(&i) {
                return Err(format!("has_vertex({i}) is {}", m.has_vertex(mk::<I>(i))));
            }
        }
        for i in s.v.keys() {
            if ix(m.vertex(mk::<I>(*i)).id()) != *i {
                return Err(format!("vertex({i}).id() differs"));
            }
        }
        for (i, e) in &s.e {
            let x = m.edge(mk::<I>(*i));
            if ix(x.id()) != *i {
                return Err(format!("edge({i}).id() differs"));
            }
            if x.is_boundary_self() != (e.face == NONE) {
                return Err(format!("edge({i}).is_boundary_self() wrong"));
            }
            let b = e.face == NONE || s.e[&e.twin].face == NONE;
            if x.is_boundary(m) != b {
                return Err(format!("edge({i}).is_boundary() is {} but should be {b}", !b));
            }
        }
        for i in s.f.keys() {
            if ix(m.face(mk::<I>(*i)).id()) != *i {
                return Err(format!("face({i}).id() differs"));
            }
        }
        let mut bv: BTreeSet<usize> = BTreeSet::new();
        for e in s.e.values() {
            if e.face == NONE {
                bv.insert(e.origin);
            }
        }
        for i in s.v.keys() {
            if s.v[i].edge == NONE {
                continue; // isolated vertices: is_boundary is documented only for connected ones
            }
            let b = m.vertex(mk::<I>(*i)).is_boundary(m);
            if b != bv.contains(i) {
                return Err(format!("vertex({i}).is_boundary() is {b}"));
            }
        }
        Ok(())
    });
    match r {
        Res::Ok(x) => x?,
        o => return Err(format!("reading a well-formed mesh failed: {o:?}")),
    }
    // lookups of ids that are not live must not succeed
    let n = probe as usize % 7;
    let dead_e = (0..s.e.keys().next_back().map_or(2, |x| x + 3).min(I::CAP))
        .filter(|i| !s.e.contains_key(i))
        .nth(n / 2);
    if let Some(d) = dead_e {
        if let Res::Ok(i) = call_b(1000, || ix(m.edge(mk::<I>(d)).id())) {
            return Err(format!("edge({d}) returned an element (id {i}) that is not iterated"));
        }
    }
    let dead_f = (0..s.f.keys().next_back().map_or(2, |x| x + 3).min(I::CAP))
        .filter(|i| !s.f.contains_key(i))
        .nth(n / 2);
    if let Some(d) = dead_f {
        if let Res::Ok(i) = call_b(1000, || ix(m.face(mk::<I>(d)).id())) {
            return Err(format!("face({d}) returned an element (id {i}) that is not iterated"));
        }
    }
    let dead_v = (0..s.v.keys().next_back().map_or(2, |x| x + 3).min(I::CAP))
        .filter(|i| !s.v.contains_key(i))
        .nth(n / 2);
    if let Some(d) = dead_v {
        if let Res::Ok(i) = call_b(1000, || ix(m.vertex(mk::<I>(d)).id())) {
            return Err(format!("vertex({d}) returned an element (id {i}) that is not iterated"));
        }
    }
    Ok(())
}

/// Whether `MeshChecker::check` is documented to accept a well-formed mesh.
pub fn check_applies(s: &Snap) -> bool {
    s.e.iter()
        .all(|(_, e)| e.face != NONE || s.e[&e.twin].face != NONE)
        && s.f.keys().all(|f| s.face_loop(*f).len() >= 3)
}

/// Compares two snapshots up to the choice of representative edges; first difference.
pub fn diff(exp: &Snap, got: &Snap) -> Option<String> {
    fn dflt(a: u64, b: u64) -> bool {
        a == b || (a & DEFAULT != 0 && b & DEFAULT != 0 && a == b)
    }
    if exp.mp != got.mp {
        return Some(format!("mesh payload {:x} != {:x}", got.mp, exp.mp));
    }
    for (i, e) in &exp.v {
        match got.v.get(i) {
            None => return Some(format!("vertex {i} missing")),
            Some(g) => {
                if g.p.bits() != e.p.bits() {
                    return Some(format!("vertex {i}: payload {:?}, expected {:?}", g.p, e.p));
                }
                if (g.edge == NONE) != (e.edge == NONE) {
                    return Some(format!("vertex {i}: edge {} expected {}", g.edge, e.edge));
                }
            }
        }
    }
    for i in got.v.keys() {
        if !exp.v.contains_key(i) {
            return Some(format!("unexpected vertex {i}"));
        }
    }
    for (i, e) in &exp.e {
        match got.e.get(i) {
            None => return Some(format!("edge {i} missing")),
            Some(g) => {
                for (n, a, b) in [
                    ("origin", g.origin, e.origin),
                    ("twin", g.twin, e.twin),
                    ("next", g.next, e.next),
                    ("prev", g.prev, e.prev),
                    ("face", g.face, e.face),
                ] {
                    if a != b {
                        return Some(format!("edge {i}: {n} {} expected {}", sid(a), sid(b)));
                    }
                }
                if !dflt(g.p.tag, e.p.tag) || g.p.curve != e.p.curve {
                    return Some(format!("edge {i}: payload {:?} expected {:?}", g.p, e.p));
                }
            }
        }
    }
    for i in got.e.keys() {
        if !exp.e.contains_key(i) {
            return Some(format!("unexpected edge {i}"));
        }
    }
    for (i, e) in &exp.f {
        match got.f.get(i) {
            None => return Some(format!("face {i} missing")),
            Some(g) => {
                if g.p != e.p {
                    return Some(format!("face {i}: payload {:?} expected {:?}", g.p, e.p));
                }
                if g.curved != e.curved {
                    return Some(format!("face {i}: curved {} expected {}", g.curved, e.curved));
                }
            }
        }
    }
    for i in got.f.keys() {
        if !exp.f.contains_key(i) {
            return Some(format!("unexpected face {i}"));
        }
    }
    None
}

pub fn sid(i: usize) -> String {
    if i == NONE {
        "none".into()
    } else {
        i.to_string()
    }
}
