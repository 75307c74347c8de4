//! C09: equivalence checks between meshes of divergent histories.

use super::*;
use crate::by_index;
use crate::env::*;
use crate::rebuild::*;
use crate::rng::{mix2, Rng};
use crate::snap::*;
use crate::types::*;
use procedural_modelling::math::HasPosition;
use procedural_modelling::mesh::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use MeshEquivalenceDifference as D;

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(40);
    gen_history(r, sc, len, r.clone().chance(1, 3), 3);
    let n = 1 + r.below(4);
    sprinkle(r, sc, n, &mut |r| Step::new("equiv", &args(r, 4)));
    let n = r.below(4);
    for _ in 0..n {
        let at = r.below(sc.steps.len() * 4 / 5 + 1);
        sc.steps.insert(at, Step::new("fork", &args(r, 1)));
    }
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn rot_eq(a: &[usize], b: &[usize]) -> bool {
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i])))
}

/// What the comparison callbacks look at.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    All,
    Tags,
    VTags,
    ETags,
    FTags,
}
impl Mode {
    fn v(self, a: &VPd, b: &VPd) -> bool {
        !matches!(self, Mode::Tags | Mode::VTags) || a.tag == b.tag
    }
    fn e(self, a: &EPd, b: &EPd) -> bool {
        !matches!(self, Mode::Tags | Mode::ETags) || a.tag == b.tag
    }
    fn f(self, a: &FPd, b: &FPd) -> bool {
        !matches!(self, Mode::Tags | Mode::FTags) || a.tag == b.tag
    }
}

/// A reported difference with plain ids.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rep {
    Same,
    NV,
    NE,
    NF,
    V(usize, usize),
    E(usize, usize),
    F(usize, usize),
    NoV,
    NoE(usize),
    NoF(usize),
}
fn rep<I: Ix, J: Ix>(d: &MeshEquivalenceDifference<MT<I>, MT<J>>) -> Rep {
    match d {
        D::Equivalent => Rep::Same,
        D::DifferentNumberOfVertices => Rep::NV,
        D::DifferentNumberOfEdges => Rep::NE,
        D::DifferentNumberOfFaces => Rep::NF,
        D::DifferentVertices(a, b) => Rep::V(ix(*a), ix(*b)),
        D::DifferentEdges(a, b) => Rep::E(ix(*a), ix(*b)),
        D::DifferentFaces(a, b) => Rep::F(ix(*a), ix(*b)),
        D::NoCorrespondingVertex => Rep::NoV,
        D::NoCorrespondingEdge(a) => Rep::NoE(ix(*a)),
        D::NoCorrespondingFace(a) => Rep::NoF(ix(*a)),
    }
}

#[derive(Default)]
struct Asked {
    v: BTreeSet<(usize, usize)>,
    e: BTreeSet<(usize, usize)>,
    f: BTreeSet<(usize, usize)>,
}

/// Judges a report given the wished-for correspondence (partial maps: missing = no counterpart).
fn judge(
    got: Rep,
    a: &Snap,
    b: &Snap,
    vm: &dyn Fn(usize) -> Option<usize>,
    em: &dyn Fn(usize) -> Option<usize>,
    fm: &dyn Fn(usize) -> Option<usize>,
    v_ok: &dyn Fn(usize, usize) -> bool,
    e_ok: &dyn Fn(usize, usize) -> bool,
    f_ok: &dyn Fn(usize, usize) -> bool,
) -> Result<(), String> {
    let counts = (a.v.len() == b.v.len(), a.e.len() == b.e.len(), a.f.len() == b.f.len());
    let same = counts == (true, true, true)
        && a.v.keys().all(|v| vm(*v).is_some_and(|w| v_ok(*v, w)))
        && a.e.keys().all(|e| em(*e).is_some_and(|x| e_ok(*e, x)))
        && a.f.keys().all(|f| fm(*f).is_some_and(|x| f_ok(*f, x)));
    let ok = match got {
        Rep::Same => same,
        Rep::NV => !counts.0,
        Rep::NE => !counts.1,
        Rep::NF => !counts.2,
        Rep::V(x, y) => vm(x) == Some(y) && !v_ok(x, y),
        Rep::E(x, y) => em(x) == Some(y) && !e_ok(x, y),
        Rep::F(x, y) => fm(x) == Some(y) && !f_ok(x, y),
        Rep::NoV => a.v.keys().any(|v| vm(*v).is_none()),
        Rep::NoE(e) => a.e.contains_key(&e) && em(e).is_none(),
        Rep::NoF(f) => a.f.contains_key(&f) && fm(f).is_none(),
    };
    if ok {
        Ok(())
    } else if same {
        Err(format!("reported {got:?} for equal meshes"))
    } else if got == Rep::Same {
        Err("reported Equivalent for different meshes".into())
    } else {
        Err(format!("reported {got:?}, which is not a difference"))
    }
}

/// Same-id comparison.
fn trivial<I: Ix>(ma: &M<I>, a: &Snap, mb: &M<I>, b: &Snap, mode: Mode, st: &mut Stats) -> Result<(), Violation> {
    let asked = RefCell::new(Asked::default());
    let v_ok = |x: usize, y: usize| x == y && mode.v(&a.v[&x].p, &b.v[&y].p) && rot_eq(&a.wheel(x), &b.wheel(y));
    let e_ok = |x: usize, y: usize| {
        x == y && a.e[&x].origin == b.e[&y].origin && a.target(x) == b.target(y) && mode.e(&a.e[&x].p, &b.e[&y].p)
    };
    let f_ok = |x: usize, y: usize| x == y && rot_eq(&a.face_loop(x), &b.face_loop(y)) && mode.f(&a.f[&x].p, &b.f[&y].p);
    let vm = |x: usize| b.v.contains_key(&x).then_some(x);
    let em = |x: usize| b.e.contains_key(&x).then_some(x);
    let fm = |x: usize| b.f.contains_key(&x).then_some(x);
    let res = call(|| {
        let d = if mode == Mode::All && a.v.len() % 2 == 0 {
            ma.is_trivially_isomorphic(mb)
        } else {
            ma.is_trivially_isomorphic_ex(
                mb,
                |x, y| {
                    event(Ev::Closure, 0);
                    asked.borrow_mut().v.insert((ix(x.id()), ix(y.id())));
                    mode.v(&x.payload().0, &y.payload().0)
                },
                |x, y| {
                    event(Ev::Closure, 1);
                    asked.borrow_mut().e.insert((ix(x.id()), ix(y.id())));
                    mode.e(&x.payload().0, &y.payload().0)
                },
                |x, y| {
                    event(Ev::Closure, 2);
                    asked.borrow_mut().f.insert((ix(x.id()), ix(y.id())));
                    mode.f(&x.payload().0, &y.payload().0)
                },
            )
        };
        rep(&d)
    });
    st.c("trivial-comparisons");
    match res {
        Res::Ok(got) => {
            st.t(crate::rng::hstr(&format!("{got:?}")));
            st.c(if got == Rep::Same { "verdict:same" } else { "verdict:different" });
            let k = format!("{got:?}");
            st.c(&format!("report:{}", k.split('(').next().unwrap_or("")));
            if let Err(m) = judge(got, a, b, &vm, &em, &fm, &v_ok, &e_ok, &f_ok) {
                return viol("trivial:verdict", m);
            }
            let q = asked.borrow();
            if q.v.iter().any(|(x, y)| x != y) || q.e.iter().any(|(x, y)| x != y) || q.f.iter().any(|(x, y)| x != y) {
                return viol("trivial:asked-wrong-pair", "a comparison callback got elements with different ids");
            }
        }
        Res::Injected => st.c("aborted-by-fault"),
        o => return viol(format!("trivial:{}", o.name()), format!("{o:?}")),
    }
    Ok(())
}

/// Comparison under a vertex bijection.
fn bijective<I: Ix, J: Ix>(ma: &M<I>, a: &Snap, mb: &M<J>, b: &Snap, map: &BTreeMap<usize, usize>, mode: Mode, st: &mut Stats) -> Result<(), Violation> {
    if !simple(a) || !simple(b) {
        st.c("skipped-multigraph");
        return Ok(());
    }
    let asked = RefCell::new(Asked::default());
    let mut by_ends: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, e) in &b.e {
        by_ends.insert((e.origin, b.target(*i)), *i);
    }
    let vm = |x: usize| map.get(&x).copied();
    let em = |x: usize| by_ends.get(&(map[&a.e[&x].origin], map[&a.target(x)])).copied();
    let fm = |x: usize| -> Option<usize> {
        let l: Option<Vec<usize>> = a.face_loop(x).iter().map(|e| em(*e)).collect();
        let l = l?;
        let f = b.e[&l[0]].face;
        (f != NONE && rot_eq(&b.face_loop(f), &l)).then_some(f)
    };
    let v_ok = |x: usize, y: usize| mode.v(&a.v[&x].p, &b.v[&y].p);
    let e_ok = |x: usize, y: usize| mode.e(&a.e[&x].p, &b.e[&y].p);
    let f_ok = |x: usize, y: usize| mode.f(&a.f[&x].p, &b.f[&y].p);
    let mut iso = IndexIsomorphism::<I, J>::new();
    for (x, y) in map {
        iso.insert(mk::<I>(*x), mk::<J>(*y));
    }
    let res = call(|| {
        rep(&ma.is_isomorphic::<MT<J>, _, _, _>(
            mb,
            &iso,
            |x, y| {
                event(Ev::Closure, 0);
                asked.borrow_mut().v.insert((ix(x.id()), ix(y.id())));
                mode.v(&x.payload().0, &y.payload().0)
            },
            |x, y| {
                event(Ev::Closure, 1);
                asked.borrow_mut().e.insert((ix(x.id()), ix(y.id())));
                mode.e(&x.payload().0, &y.payload().0)
            },
            |x, y| {
                event(Ev::Closure, 2);
                asked.borrow_mut().f.insert((ix(x.id()), ix(y.id())));
                mode.f(&x.payload().0, &y.payload().0)
            },
        ))
    });
    st.c("isomorphism-comparisons");
    match res {
        Res::Ok(got) => {
            st.t(crate::rng::hstr(&format!("{got:?}")));
            st.c(if got == Rep::Same { "verdict:same" } else { "verdict:different" });
            let k = format!("{got:?}");
            st.c(&format!("report-iso:{}", k.split('(').next().unwrap_or("")));
            if let Err(m) = judge(got, a, b, &vm, &em, &fm, &v_ok, &e_ok, &f_ok) {
                return viol("isomorphic:verdict", m);
            }
            let q = asked.borrow();
            if q.v.iter().any(|(x, y)| vm(*x) != Some(*y))
                || q.e.iter().any(|(x, y)| em(*x) != Some(*y))
                || q.f.iter().any(|(x, y)| fm(*x) != Some(*y))
            {
                return viol("isomorphic:asked-wrong-pair", "a comparison callback got elements that do not correspond");
            }
        }
        Res::Injected => st.c("aborted-by-fault"),
        o => return viol(format!("isomorphic:{}", o.name()), format!("{o:?}")),
    }
    Ok(())
}

fn matching<I: Ix, J: Ix>(ma: &M<I>, a: &Snap, mb: &M<J>, b: &Snap, k: u64, st: &mut Stats) -> Result<(), Violation> {
    // how coarsely vertices are told apart
    let coarse = match k % 4 {
        0 | 1 => u64::MAX,
        2 => 2 + k / 4 % 40,
        _ => 1000,
    };
    let same = |x: &VPd, y: &VPd| x.tag % coarse == y.tag % coarse;
    let mut cands: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, v) in &a.v {
        cands.insert(*i, b.v.iter().filter(|(_, w)| same(&v.p, &w.p)).map(|(j, _)| *j).collect());
    }
    let none = cands.values().any(|c| c.is_empty());
    let uniq = cands.values().all(|c| c.len() == 1) && cands.values().collect::<BTreeSet<_>>().len() == cands.len();
    let res = call(|| {
        ma.find_payload_isomorphism::<MT<J>, _>(mb, |x, y| {
            event(Ev::Closure, 3);
            same(&x.payload().0, &y.payload().0)
        })
        .map(|m| m.iter().map(|(x, y)| (ix(*x), ix(*y))).collect::<BTreeMap<usize, usize>>())
    });
    st.c("payload-matchings");
    match res {
        Res::Ok(Ok(m)) => {
            st.c("matching:ok");
            if none {
                return viol("matching:ok-without-match", "a vertex without any match was matched");
            }
            if !m.keys().eq(a.v.keys()) {
                return viol("matching:not-total", "the isomorphism does not map every vertex");
            }
            if m.iter().any(|(x, y)| !cands[x].contains(y)) {
                return viol("matching:wrong", "a vertex was mapped to one that does not match");
            }
            if m.values().collect::<BTreeSet<_>>().len() != m.len() {
                return viol("matching:not-injective", "two vertices were mapped to the same one");
            }
        }
        Res::Ok(Err(e)) => {
            st.c("matching:err");
            if uniq {
                return viol("matching:err-but-unique", e);
            }
        }
        Res::Injected => {
            st.c("aborted-by-fault");
            return Ok(());
        }
        o => return viol(format!("matching:{}", o.name()), format!("{o:?}")),
    }
    let res = call(|| {
        rep(&ma.is_isomorphic_by::<MT<J>, _>(mb, |x, y| {
            event(Ev::Closure, 4);
            same(&x.payload().0, &y.payload().0)
        }))
    });
    match res {
        Res::Ok(got) => {
            if !simple(a) || !simple(b) {
                return Ok(());
            }
            if none && got == Rep::Same {
                return viol("by:verdict", "reported Equivalent although a vertex has no match");
            }
            if uniq {
                let map: BTreeMap<usize, usize> = cands.iter().map(|(x, c)| (*x, c[0])).collect();
                plain(got, a, b, &map, "by")?;
            }
        }
        Res::Injected => st.c("aborted-by-fault"),
        o => return viol(format!("by:{}", o.name()), format!("{o:?}")),
    }
    Ok(())
}

/// Judges a payload-blind report under a known matching.
fn plain(got: Rep, a: &Snap, b: &Snap, map: &BTreeMap<usize, usize>, what: &str) -> Result<(), Violation> {
    let mut by_ends: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, e) in &b.e {
        by_ends.insert((e.origin, b.target(*i)), *i);
    }
    let vm = |x: usize| map.get(&x).copied();
    let em = |x: usize| by_ends.get(&(*map.get(&a.e[&x].origin)?, *map.get(&a.target(x))?)).copied();
    let fm = |x: usize| -> Option<usize> {
        let l: Option<Vec<usize>> = a.face_loop(x).iter().map(|e| em(*e)).collect();
        let l = l?;
        let f = b.e[&l[0]].face;
        (f != NONE && rot_eq(&b.face_loop(f), &l)).then_some(f)
    };
    let yes = |_: usize, _: usize| true;
    match judge(got, a, b, &vm, &em, &fm, &yes, &yes, &yes) {
        Ok(()) => Ok(()),
        Err(m) => viol(format!("{what}:verdict"), m),
    }
}

fn positions<I: Ix>(ma: &M<I>, a: &Snap, mb: &M<I>, b: &Snap, st: &mut Stats) -> Result<(), Violation> {
    let eps = 1e-6;
    let about = |x: &VPd, y: &VPd| {
        let d = x.pos - y.pos;
        d.dot(&d).sqrt() <= eps
    };
    let far = |x: &VPd, y: &VPd| {
        let d = x.pos - y.pos;
        d.dot(&d).sqrt() > 1e-3
    };
    // every pair is clearly near or clearly far
    if a.v.values().any(|x| b.v.values().any(|y| !(x.pos_eq(y) || far(&x.p, &y.p)))) {
        st.c("skipped-nearly-equal-positions");
        return Ok(());
    }
    st.c("position-comparisons");
    let tri = |curved: bool| {
        call(|| {
            rep(&if curved {
                ma.is_trivially_isomorphic_pos_curved(mb, eps)
            } else {
                ma.is_trivially_isomorphic_pos::<3, f64, V3>(mb, eps)
            })
        })
    };
    let v_ok = |x: usize, y: usize| x == y && about(&a.v[&x].p, &b.v[&y].p) && rot_eq(&a.wheel(x), &b.wheel(y));
    let f_ok = |x: usize, y: usize| x == y && rot_eq(&a.face_loop(x), &b.face_loop(y));
    let vm = |x: usize| b.v.contains_key(&x).then_some(x);
    let em = |x: usize| b.e.contains_key(&x).then_some(x);
    let fm = |x: usize| b.f.contains_key(&x).then_some(x);
    for curved in [false, true] {
        let e_ok = |x: usize, y: usize| {
            x == y
                && a.e[&x].origin == b.e[&y].origin
                && a.target(x) == b.target(y)
                && (!curved || a.e[&x].p.curve == b.e[&y].p.curve)
        };
        match tri(curved) {
            Res::Ok(got) => {
                if let Err(m) = judge(got, a, b, &vm, &em, &fm, &v_ok, &e_ok, &f_ok) {
                    return viol(if curved { "trivial-pos-curved:verdict" } else { "trivial-pos:verdict" }, m);
                }
            }
            Res::Injected => {}
            o => return viol(format!("trivial-pos:{}", o.name()), format!("{o:?}")),
        }
    }
    // by position: only where positions identify vertices
    let mut map = BTreeMap::new();
    for (i, v) in &a.v {
        let c: Vec<usize> = b.v.iter().filter(|(_, w)| about(&v.p, &w.p)).map(|(j, _)| *j).collect();
        if c.len() > 1 {
            return Ok(());
        }
        if let Some(j) = c.first() {
            map.insert(*i, *j);
        }
    }
    if map.values().collect::<BTreeSet<_>>().len() != map.len() || !simple(a) || !simple(b) {
        return Ok(());
    }
    for k in 0..2 {
        let r = call(|| {
            rep(&if k == 0 {
                ma.is_isomorphic_by_pos::<f64, 3, V3, MT<I>>(mb, eps)
            } else {
                ma.is_isomorphic_pos::<3, f64, V3>(mb, eps)
            })
        });
        let what = ["by-pos", "pos"][k];
        match r {
            Res::Ok(got) => {
                st.c(if got == Rep::Same { "verdict:same" } else { "verdict:different" });
                plain(got, a, b, &map, what)?
            }
            Res::Injected => {}
            o => return viol(format!("{what}:{}", o.name()), format!("{o:?}")),
        }
    }
    Ok(())
}

trait PosEq {
    fn pos_eq(&self, o: &Self) -> bool;
}
impl PosEq for SV {
    fn pos_eq(&self, o: &SV) -> bool {
        self.p.pos == o.p.pos
    }
}

/// One small change to a mesh.
fn tweak<I: Ix>(m: &mut M<I>, s: &Snap, r: &mut Rng) -> bool {
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let es: Vec<usize> = s.e.keys().copied().collect();
    let fs: Vec<usize> = s.f.keys().copied().collect();
    let res = call(|| match r.below(13) {
        0 if !vs.is_empty() => m.vertex_mut(mk::<I>(*r.pick(&vs))).payload_mut().0.tag = fresh_tag(),
        1 if !es.is_empty() => m.edge_mut(mk::<I>(*r.pick(&es))).payload_mut().0.tag = fresh_tag(),
        2 if !fs.is_empty() => m.face_mut(mk::<I>(*r.pick(&fs))).payload_mut().0.tag = fresh_tag(),
        3 if !vs.is_empty() => {
            let v = m.vertex_mut(mk::<I>(*r.pick(&vs)));
            let p = *v.payload().pos() + V3::new(0.0, 0.5, 0.0);
            v.payload_mut().set_pos(p);
        }
        4 | 5 if !fs.is_empty() => {
            m.remove_face(mk::<I>(*r.pick(&fs)));
        }
        6 | 7 if !fs.is_empty() => {
            // close another hole instead
            let f = *r.pick(&fs);
            let hole: Vec<usize> = es.iter().copied().filter(|e| s.e[e].face == NONE && s.lp(*e).len() == s.face_loop(f).len()).collect();
            let fp = m.remove_face(mk::<I>(f));
            if hole.is_empty() {
                m.close_hole(mk::<I>(s.e[&s.f[&f].edge].next), fp, s.f[&f].curved);
            } else {
                m.close_hole(mk::<I>(*r.pick(&hole)), fp, false);
            }
        }
        8 => {
            m.flip();
        }
        9 if !es.is_empty() => {
            m.edge_mut(mk::<I>(*r.pick(&es))).set_curve_type(CurvedEdgeType::QuadraticBezier(V3::new(1.0, 2.0, 3.0)));
        }
        10 if !vs.is_empty() => {
            // another wheel start
            let v = *r.pick(&vs);
            let w = s.wheel(v);
            if !w.is_empty() {
                m.vertex_mut(mk::<I>(v)).set_edge(mk::<I>(*r.pick(&w)));
            }
        }
        11 if !fs.is_empty() => {
            // another loop start
            let f = *r.pick(&fs);
            let l = s.face_loop(f);
            m.face_mut(mk::<I>(f)).set_edge(mk::<I>(*r.pick(&l)));
        }
        12 => {
            // exchange the corners of two dangling edges at one vertex
            for v in &vs {
                let d: Vec<usize> = s.wheel(*v).into_iter().filter(|e| s.e[e].next == s.e[e].twin && s.e[e].face == NONE).collect();
                if d.len() >= 2 && s.degree(*v) >= 3 {
                    let (a, b) = (d[0], d[1]);
                    // swap the incoming predecessors and outgoing successors of the two spikes
                    let (pa, pb) = (s.e[&a].prev, s.e[&b].prev);
                    let (na, nb) = (s.e[&s.e[&a].twin].next, s.e[&s.e[&b].twin].next);
                    let (ta, tb) = (s.e[&a].twin, s.e[&b].twin);
                    if na == b || nb == a || pa == pb {
                        continue;
                    }
                    m.edge_mut(mk::<I>(pa)).set_next(mk::<I>(b));
                    m.edge_mut(mk::<I>(b)).set_prev(mk::<I>(pa));
                    m.edge_mut(mk::<I>(pb)).set_next(mk::<I>(a));
                    m.edge_mut(mk::<I>(a)).set_prev(mk::<I>(pb));
                    m.edge_mut(mk::<I>(ta)).set_next(mk::<I>(nb));
                    m.edge_mut(mk::<I>(nb)).set_prev(mk::<I>(ta));
                    m.edge_mut(mk::<I>(tb)).set_next(mk::<I>(na));
                    m.edge_mut(mk::<I>(na)).set_prev(mk::<I>(tb));
                    break;
                }
            }
        }
        _ => {}
    });
    matches!(res, Res::Ok(()))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut forks: Vec<M<I>> = vec![];
    drive::<I>(sc, stats, Want::default(), &mut |ed, st| {
        if st.op == "fork" {
            if let Res::Ok(m) = call(|| ed.mesh.clone()) {
                forks.push(m);
                ed.stats.c("forks");
            }
            return Ok(());
        }
        if st.op != "equiv" {
            return Ok(());
        }
        let mut r = Rng::new(mix2(st.arg(0), st.arg(1)));
        let a = ed.cur.clone();
        let ma = &ed.mesh;
        let mut others: Vec<(M<I>, Option<Maps>)> = vec![];
        for m in &forks {
            others.push((m.clone(), None));
        }
        for k in 0..4 {
            let mut m = ma.clone();
            if k > 0 && !tweak::<I>(&mut m, &a, &mut r) {
                continue;
            }
            others.push((m, None));
        }
        for _ in 0..2 {
            if let Some((mut m, s, maps)) = rebuild::<I>(&a, r.u64()) {
                if r.chance(1, 2) {
                    tweak::<I>(&mut m, &s, &mut r);
                }
                ed.stats.c("rebuilt-meshes");
                others.push((m, Some(maps)));
            } else {
                ed.stats.c("rebuild-impossible");
            }
        }
        if a.e.len() > 4 {
            ed.stats.c("nontrivial");
        }
        let rebuilt_j = rebuild::<u16>(&a, r.u64()).map(|(mut m, s, maps)| {
            if r.chance(1, 2) {
                tweak::<u16>(&mut m, &s, &mut r);
            }
            (m, maps)
        });
        for (mb, maps) in &others {
            let b = match snapshot::<I>(mb) {
                Ok(s) if integrity(&s).is_ok() => s,
                _ => continue,
            };
            let fault = st.arg(2) % 5 == 0 && r.chance(1, 4);
            if fault {
                arm(r.below(12) as u64);
            }
            let mode = *r.pick(&[Mode::All, Mode::All, Mode::Tags, Mode::VTags, Mode::ETags, Mode::FTags]);
            let k = r.u64();
            let out = (|| {
                trivial::<I>(ma, &a, mb, &b, mode, &mut ed.stats)?;
                trivial::<I>(mb, &b, ma, &a, mode, &mut ed.stats)?;
                if a.v.len() == b.v.len() {
                    let mut map: BTreeMap<usize, usize> = match maps {
                        Some(m) => m.v.clone(),
                        None => a.v.keys().copied().zip(b.v.keys().copied()).collect(),
                    };
                    if k % 5 == 0 && map.len() > 1 {
                        // another bijection
                        let ks: Vec<usize> = map.keys().copied().collect();
                        let (x, y) = (ks[k as usize / 5 % ks.len()], ks[k as usize / 500 % ks.len()]);
                        let (p, q) = (map[&x], map[&y]);
                        map.insert(x, q);
                        map.insert(y, p);
                    }
                    bijective::<I, I>(ma, &a, mb, &b, &map, mode, &mut ed.stats)?;
                    let inv: BTreeMap<usize, usize> = map.iter().map(|(x, y)| (*y, *x)).collect();
                    bijective::<I, I>(mb, &b, ma, &a, &inv, mode, &mut ed.stats)?;
                }
                matching::<I, I>(ma, &a, mb, &b, k >> 7, &mut ed.stats)?;
                matching::<I, I>(mb, &b, ma, &a, k >> 9, &mut ed.stats)?;
                positions::<I>(ma, &a, mb, &b, &mut ed.stats)
            })();
            if fault && !disarm() {
                ed.stats.c("fault:comparison-callback-panics");
            }
            out?;
            for (m, s, w) in [(ma, &a, "first"), (mb, &b, "second")] {
                match snapshot::<I>(m) {
                    Ok(x) if x.hash() == s.hash() => {}
                    _ => return viol("altered", format!("comparing altered the {w} mesh")),
                }
            }
        }
        if let Some((mb, maps)) = rebuilt_j {
            if let Ok(b) = snapshot::<u16>(&mb) {
                let mode = *r.pick(&[Mode::All, Mode::Tags]);
                if maps.v.len() == b.v.len() {
                    bijective::<I, u16>(ma, &a, &mb, &b, &maps.v, mode, &mut ed.stats)?;
                }
                matching::<I, u16>(ma, &a, &mb, &b, r.u64(), &mut ed.stats)?;
            }
        }
        Ok(())
    })
}
