//! Rebuilds a mesh from its plain-data image through the public builders, in a random order, so
//! that the same mesh arises from a different history with other ids (and another index type).

use crate::env::*;
use crate::rng::Rng;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::mesh::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct Maps {
    pub v: BTreeMap<usize, usize>,
    pub e: BTreeMap<usize, usize>,
    pub f: BTreeMap<usize, usize>,
}

/// No two edges between the same vertices, no edge from a vertex to itself.
pub fn simple(s: &Snap) -> bool {
    let mut seen = BTreeSet::new();
    s.e.iter().all(|(i, e)| s.target(*i) != e.origin && seen.insert((e.origin, s.target(*i))))
}

/// Each component's rotation system is planar (as are its builders' results).
pub fn planar(s: &Snap) -> bool {
    let mut seen = BTreeSet::new();
    let mut loops = 0;
    for i in s.e.keys() {
        if seen.contains(i) {
            continue;
        }
        loops += 1;
        seen.extend(s.lp(*i));
    }
    let iso = s.v.values().filter(|v| v.edge == NONE).count();
    // V - E + F = 2 per component with edges
    s.v.len() as i64 - iso as i64 - s.e.len() as i64 / 2 + loops == 2 * (s.components() - iso) as i64
}

/// `None` when the builders cannot express the mesh (not simple, not planar, id space too small).
pub fn rebuild<J: Ix>(s: &Snap, seed: u64) -> Option<(M<J>, Snap, Maps)> {
    if !simple(s) || !planar(s) || s.e.len().max(s.v.len()) + 1 >= J::CAP {
        return None;
    }
    let mut r = Rng::new(seed);
    let mut m = M::<J>::new();
    let mut mp = Maps::default();
    let res = call(|| {
        let mut vs: Vec<usize> = s.v.keys().copied().collect();
        r.shuffle(&mut vs);
        // some vertices first, as isolated ones
        let early = if r.chance(1, 2) { r.below(vs.len() + 1) } else { 0 };
        for v in vs.iter().take(early).filter(|v| s.v[v].edge == NONE) {
            mp.v.insert(*v, ix(m.add_vertex(VP(s.v[v].p))));
        }
        // the half-edge already built that precedes e in the wheel of its origin
        let pred = |e: usize, mp: &Maps| -> Option<usize> {
            let mut c = s.e[&s.e[&e].prev].twin;
            while c != e && !mp.e.contains_key(&c) {
                c = s.e[&s.e[&c].prev].twin;
            }
            (c != e).then_some(c)
        };
        let mut edges: Vec<usize> = s.e.keys().copied().collect();
        r.shuffle(&mut edges);
        // edges in an order in which each component grows from one edge
        let mut comp_seen: BTreeSet<usize> = BTreeSet::new();
        let mut order: Vec<usize> = vec![];
        for e0 in edges.iter().copied() {
            if comp_seen.contains(&s.e[&e0].origin) {
                continue;
            }
            comp_seen.insert(s.e[&e0].origin);
            let mut front = s.out(s.e[&e0].origin);
            while !front.is_empty() {
                let k = r.below(front.len());
                let e = front.swap_remove(k);
                let w = s.target(e);
                if comp_seen.insert(w) {
                    order.push(e);
                    front.extend(s.out(w));
                }
            }
        }
        let tree: BTreeSet<usize> = order.iter().flat_map(|e| [*e, s.e[e].twin]).collect();
        for e in edges {
            if e < s.e[&e].twin && !tree.contains(&e) {
                order.push(e);
            }
        }
        for e in order {
            let t = s.e[&e].twin;
            let (v, w) = (s.e[&e].origin, s.e[&t].origin);
            let (ep, et) = (EP(s.e[&e].p), EP(s.e[&t].p));
            let at = |x: usize, m: &M<J>, mp: &Maps| -> Option<usize> {
                // the incoming half-edge after which x leaves its origin
                pred(x, mp).map(|p| ix(m.edge(mk::<J>(mp.e[&p])).twin_id()))
            };
            let (ne, nt) = match (at(e, &m, &mp), at(t, &m, &mp), mp.v.contains_key(&v), mp.v.contains_key(&w)) {
                (Some(a), Some(b), _, _) => {
                    let (x, y) = m.insert_edge(mk::<J>(a), ep, mk::<J>(b), et);
                    (ix(x), ix(y))
                }
                (Some(a), None, _, false) => {
                    let o = ix(m.edge(mk::<J>(a)).next_id());
                    let (nv, x, y) = m.add_vertex_via_edge(mk::<J>(a), mk::<J>(o), VP(s.v[&w].p), ep, et);
                    mp.v.insert(w, ix(nv));
                    (ix(x), ix(y))
                }
                (None, Some(b), false, _) => {
                    let o = ix(m.edge(mk::<J>(b)).next_id());
                    let (nv, y, x) = m.add_vertex_via_edge(mk::<J>(b), mk::<J>(o), VP(s.v[&v].p), et, ep);
                    mp.v.insert(v, ix(nv));
                    (ix(x), ix(y))
                }
                (None, None, false, false) => {
                    let (a, b) = m.add_isolated_edge(VP(s.v[&v].p), ep, VP(s.v[&w].p), et);
                    mp.v.insert(v, ix(a));
                    mp.v.insert(w, ix(b));
                    let x = ix(m.vertex(a).edge_id(&m));
                    (x, ix(m.edge(mk::<J>(x)).twin_id()))
                }
                (None, None, true, true) => {
                    let (x, y) = m.insert_edge_between(mk::<J>(mp.v[&v]), ep, mk::<J>(mp.v[&w]), et);
                    (ix(x), ix(y))
                }
                (None, None, true, false) => {
                    let (nv, x, y) = m.add_vertex_via_vertex(mk::<J>(mp.v[&v]), VP(s.v[&w].p), ep, et);
                    mp.v.insert(w, ix(nv));
                    (ix(x), ix(y))
                }
                (None, None, false, true) => {
                    let (nv, y, x) = m.add_vertex_via_vertex(mk::<J>(mp.v[&w]), VP(s.v[&v].p), et, ep);
                    mp.v.insert(v, ix(nv));
                    (ix(x), ix(y))
                }
                // a corner at one end only although the other vertex exists: does not occur, since
                // only isolated vertices are added ahead of their edges
                _ => return false,
            };
            mp.e.insert(e, ne);
            mp.e.insert(t, nt);
        }
        for v in &vs {
            if !mp.v.contains_key(v) {
                mp.v.insert(*v, ix(m.add_vertex(VP(s.v[v].p))));
            }
        }
        let mut fs: Vec<usize> = s.f.keys().copied().collect();
        r.shuffle(&mut fs);
        for f in fs {
            let l = s.face_loop(f);
            let e = l[r.below(l.len())];
            let nf = m.close_hole(mk::<J>(mp.e[&e]), FP(s.f[&f].p), s.f[&f].curved);
            mp.f.insert(f, ix(nf));
        }
        m.set_payload(MP(FPd { tag: s.mp }));
        true
    });
    if !matches!(res, Res::Ok(true)) {
        return None;
    }
    let n = snapshot::<J>(&m).ok()?;
    (integrity(&n).is_ok() && same_under(s, &n, &mp)).then_some((m, n, mp))
}

/// Whether the maps are a full isomorphism of the rotation systems with payloads.
pub fn same_under(a: &Snap, b: &Snap, mp: &Maps) -> bool {
    let me = |e: usize| mp.e.get(&e).copied().unwrap_or(NONE);
    let mf = |f: usize| if f == NONE { NONE } else { mp.f.get(&f).copied().unwrap_or(NONE - 1) };
    a.v.len() == b.v.len()
        && a.e.len() == b.e.len()
        && a.f.len() == b.f.len()
        && a.mp == b.mp
        && a.v.iter().all(|(i, v)| {
            mp.v.get(i).and_then(|j| b.v.get(j)).is_some_and(|w| w.p.bits() == v.p.bits() && (w.edge == NONE) == (v.edge == NONE))
        })
        && a.e.iter().all(|(i, e)| {
            b.e.get(&me(*i)).is_some_and(|x| {
                x.next == me(e.next)
                    && x.prev == me(e.prev)
                    && x.twin == me(e.twin)
                    && Some(&x.origin) == mp.v.get(&e.origin)
                    && x.face == mf(e.face)
                    && x.p == e.p
            })
        })
        && a.f.iter().all(|(i, f)| {
            b.f.get(&mf(*i)).is_some_and(|x| x.p == f.p && x.curved == f.curved)
        })
}
