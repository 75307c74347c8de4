//! C13: the integrity checker under storage corruption.

use super::tri::*;
use super::*;
use crate::by_index;
use crate::env::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::halfedge::*;
use procedural_modelling::mesh::*;
use std::collections::BTreeSet;

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(40);
    gen_history(r, sc, len, r.clone().chance(1, 6), 4);
    if r.chance(1, 2) {
        gen_polys(r, sc, 2);
    }
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("corrupt", &args(r, 4)));
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

/// What a mesh stores about one element, overwritten.
#[derive(Clone, Copy, Debug)]
enum Hit {
    Twin(usize, usize),
    Next(usize, usize),
    Prev(usize, usize),
    Origin(usize, usize),
    Face(usize, usize),
    VEdge(usize, usize),
    FEdge(usize, usize),
    /// two half-edges exchange their successors, consistently
    SwapNext(usize, usize),
    /// two half-edges exchange their twins, consistently
    SwapTwin(usize, usize),
    /// a whole loop is given another face
    Relabel(usize, usize),
}

fn set_face<I: Ix>(m: &mut M<I>, e: usize, f: usize) {
    let x = m.edge_mut(mk::<I>(e));
    if ix(x.face_id()) != ix(<I as procedural_modelling::math::IndexType>::max()) {
        x.delete_face();
    }
    if f != NONE {
        x.set_face(mk::<I>(f));
    }
}

fn hit<I: Ix>(m: &mut M<I>, s: &Snap, h: Hit) {
    use Hit::*;
    match h {
        Twin(e, x) => m.edge_mut(mk::<I>(e)).set_twin(mk::<I>(x)),
        Next(e, x) => m.edge_mut(mk::<I>(e)).set_next(mk::<I>(x)),
        Prev(e, x) => m.edge_mut(mk::<I>(e)).set_prev(mk::<I>(x)),
        Origin(e, x) => m.edge_mut(mk::<I>(e)).set_origin(mk::<I>(x)),
        Face(e, x) => set_face(m, e, x),
        VEdge(v, x) => m.vertex_mut(mk::<I>(v)).set_edge(mk::<I>(x)),
        FEdge(f, x) => m.face_mut(mk::<I>(f)).set_edge(mk::<I>(x)),
        SwapNext(a, b) => {
            let (x, y) = (s.e[&a].next, s.e[&b].next);
            m.edge_mut(mk::<I>(a)).set_next(mk::<I>(y));
            m.edge_mut(mk::<I>(y)).set_prev(mk::<I>(a));
            m.edge_mut(mk::<I>(b)).set_next(mk::<I>(x));
            m.edge_mut(mk::<I>(x)).set_prev(mk::<I>(b));
        }
        SwapTwin(a, b) => {
            let (x, y) = (s.e[&a].twin, s.e[&b].twin);
            m.edge_mut(mk::<I>(a)).set_twin(mk::<I>(y));
            m.edge_mut(mk::<I>(y)).set_twin(mk::<I>(a));
            m.edge_mut(mk::<I>(b)).set_twin(mk::<I>(x));
            m.edge_mut(mk::<I>(x)).set_twin(mk::<I>(b));
        }
        Relabel(e, f) => {
            for x in s.lp(e) {
                set_face(m, x, f);
            }
        }
    }
}

/// Whether the checker documents the invariant this breaks.
fn breaks(s: &Snap, h: Hit) -> bool {
    use Hit::*;
    match h {
        Twin(e, x) => x != s.e[&e].twin,
        Next(e, x) => x != s.e[&e].next,
        Prev(e, x) => x != s.e[&e].prev,
        Origin(e, x) => x != s.e[&e].origin,
        Face(e, x) => x != s.e[&e].face && s.lp(e).len() > 1,
        // a vertex may name any of its outgoing edges; a vertex that names none counts as isolated
        VEdge(v, x) => x != NONE && s.e.get(&x).is_none_or(|e| e.origin != v),
        FEdge(f, x) => s.e.get(&x).is_none_or(|e| e.face != f),
        SwapNext(a, b) => a != b && s.target(a) != s.target(b),
        SwapTwin(a, b) => s.target(a) != s.target(b),
        Relabel(e, f) => s.e[&e].face != NONE && s.e[&e].face != f,
    }
}

fn pick(set: &[usize], cap: usize, k: u64) -> usize {
    let mut r = Rng::new(k);
    match r.below(12) {
        0 => NONE,
        1 => {
            // a slot that is not live
            let live: BTreeSet<usize> = set.iter().copied().collect();
            let mut x = r.below(set.len() + 4);
            while live.contains(&x) {
                x += 1;
            }
            if x >= cap {
                NONE
            } else {
                x
            }
        }
        _ => {
            if set.is_empty() {
                0
            } else {
                set[r.below(set.len())]
            }
        }
    }
}

fn draw(s: &Snap, cap: usize, k: u64) -> Option<Hit> {
    use Hit::*;
    let mut r = Rng::new(k);
    let es: Vec<usize> = s.e.keys().copied().collect();
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    if es.is_empty() {
        return None;
    }
    let e = es[r.below(es.len())];
    // half of the wrong references are near misses
    let near = {
        let x = &s.e[&e];
        let c = [x.next, x.prev, x.twin, s.e[&x.twin].next, s.e[&x.twin].prev, e];
        c[r.below(c.len())]
    };
    let any = if r.chance(1, 2) { near } else { pick(&es, cap, r.below(1 << 30) as u64) };
    Some(match r.below(11) {
        0 => Twin(e, any),
        1 => Next(e, any),
        2 => Prev(e, any),
        3 => Origin(e, if r.chance(1, 2) { s.target(e) } else { pick(&vs, cap, r.below(1 << 30) as u64) }),
        4 | 5 => Face(e, if r.chance(1, 3) { s.e[&s.e[&e].twin].face } else { pick(&fs, cap, r.below(1 << 30) as u64) }),
        6 => VEdge(s.e[&e].origin, if r.chance(1, 2) { s.e[&e].twin } else { any }),
        7 => {
            if fs.is_empty() {
                return None;
            }
            let f = fs[r.below(fs.len())];
            let own = s.face_loop(f);
            FEdge(f, if r.chance(1, 2) { s.e[&own[r.below(own.len())]].twin } else { any })
        }
        8 => SwapNext(e, es[r.below(es.len())]),
        9 => SwapTwin(e, es[r.below(es.len())]),
        _ => Relabel(e, pick(&fs, cap, r.below(1 << 30) as u64)),
    })
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if poly_step(ed, st) || st.op != "corrupt" {
            return Ok(());
        }
        let mut m = match call(|| ed.mesh.clone()) {
            Res::Ok(m) => m,
            _ => return Ok(()),
        };
        let mut s = ed.cur.clone();
        // give lonely edges a face, so that the checker has nothing to complain about
        if st.arg(0) % 4 != 0 {
            for i in ed.cur.e.keys() {
                let e = s.e[i].clone();
                if e.face == NONE && s.e[&e.twin].face == NONE && s.lp(*i).len() >= 3 {
                    let fp = FP::new(fresh_tag());
                    let _ = call(|| m.close_hole(mk::<I>(*i), fp, false));
                    match snapshot::<I>(&m) {
                        Ok(a) if integrity(&a).is_ok() => s = a,
                        _ => return Ok(()),
                    }
                }
            }
        }
        let sound = check_applies(&s);
        let budget = 100_000 + 400 * (s.e.len() as u64) * (s.e.len() as u64);
        match call_b(budget, || m.check()) {
            Res::Ok(Ok(())) => {}
            Res::Ok(Err(e)) if sound => return viol("rejects-sound", e),
            Res::Ok(Err(_)) => ed.stats.c("base-not-acceptable"),
            Res::Panic(p) => return viol("sound:panic", p),
            _ => return viol("sound:nontermination", format!("{} edges", s.e.len())),
        }
        match snapshot::<I>(&m) {
            Ok(a) if a.hash() == s.hash() => {}
            _ => return viol("sound:altered", "check altered the mesh"),
        }
        if s.e.is_empty() || !sound {
            return Ok(());
        }
        ed.stats.c("nontrivial");
        for k in 0..24u64 {
            let Some(h) = draw(&s, I::CAP, mix2(st.arg(1) * 131 + st.arg(2), k)) else { continue };
            if !breaks(&s, h) {
                ed.stats.c("harmless-corruption");
                continue;
            }
            let mut c = m.clone();
            match call(|| hit::<I>(&mut c, &s, h)) {
                Res::Ok(()) => {}
                _ => continue,
            }
            let kind = format!("{h:?}");
            let kind = kind.split('(').next().unwrap().to_string();
            ed.stats.c(&format!("fault:corrupt-{}", kind.to_lowercase()));
            let before = raw::<I>(&c);
            ed.stats.t(mix2(before, k));
            let res = call_b(budget, || c.check());
            if raw::<I>(&c) != before {
                return viol(format!("{kind}:altered"), format!("{h:?}: check altered the mesh"));
            }
            match res {
                Res::Ok(Ok(())) => {
                    return viol(format!("{kind}:missed"), format!("{h:?} accepted ({} vertices, {} half-edges, {} faces)", s.v.len(), s.e.len(), s.f.len()))
                }
                Res::Ok(Err(_)) => ed.stats.c("reported"),
                Res::Panic(_) => ed.stats.c("reported-by-panic"),
                _ => return viol(format!("{kind}:nontermination"), format!("{h:?}: check did not return")),
            }
        }
        Ok(())
    })
}

/// Everything stored, without following any reference.
fn raw<I: Ix>(m: &M<I>) -> u64 {
    let mut h = 7u64;
    for v in m.vertices() {
        h = mix2(h, mix2(ix(v.id()) as u64, mix2(ix(v.edge_id(m)) as u64, v.payload().0.tag)));
    }
    for e in m.edges() {
        for x in [ix(e.id()), ix(e.next_id()), ix(e.prev_id()), ix(e.twin_id()), ix(e.origin_id()), ix(e.face_id())] {
            h = mix2(h, x as u64);
        }
    }
    for f in m.faces() {
        h = mix2(h, mix2(ix(f.id()) as u64, ix(f.edge_id()) as u64));
    }
    h
}
