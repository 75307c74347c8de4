//! C14 (lofts, extrusions, solids) and C04 (stream-fed builders).

use super::tri::refresh;
use super::*;
use crate::by_index;
use crate::env::*;
use crate::model::{tf_aff, Tf};
use crate::snap::*;
use super::subdiv::canon;
use crate::types::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::primitives::*;
use std::collections::{BTreeMap, BTreeSet};

const LOFTS: [&str; 13] = [
    "loft_tri",
    "loft_tri_back",
    "loft_tri_closed",
    "loft_tri_back_closed",
    "loft_polygon",
    "loft_polygon_back",
    "fill_hole_apex",
    "extrude",
    "extrude_face",
    "extrude_tri",
    "extrude_tri2",
    "extrude_tri_face",
    "extrude_boundary",
];

pub fn gen14(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(24);
    gen_history(r, sc, len, r.clone().chance(1, 6), 3);
    let n = 1 + r.below(5);
    sprinkle(r, sc, n, &mut |r| {
        if r.chance(1, 5) {
            Step::new("solid", &args(r, 4))
        } else if r.chance(1, 12) {
            Step::new("flat", &args(r, 4))
        } else {
            let mut a = vec![r.below(13) as u64];
            a.extend(args(r, 4));
            a.push(0);
            a.push(r.below(5) as u64);
            Step::new("loft", &a)
        }
    });
}

pub fn gen4(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(26);
    gen_history(r, sc, len, true, 3);
    // streams of every behaviour, and more stream-fed requests
    for st in sc.steps.iter_mut() {
        if st.op.starts_with("do-") && st.a.len() >= 7 {
            st.a[6] = r.below(15) as u64;
        }
        if st.op == "deliver" && st.a.len() >= 3 {
            st.a[2] = r.below(15) as u64;
        }
    }
    let n = 2 + r.below(5);
    sprinkle(r, sc, n, &mut |r| {
        let fault = |r: &mut Rng| if r.chance(1, 2) { 1 + r.below(40) as u64 } else { 0 };
        if r.chance(1, 2) {
            let k = *r.pick(&["do-path", "do-loop", "do-polygon", "do-dihedron", "do-split_edge", "do-split_edge"]);
            let mut a = args(r, 3);
            a.extend([0, 0, fault(r), r.below(15) as u64]);
            Step::new(k, &a)
        } else {
            let mut a = vec![r.below(6) as u64];
            a.extend(args(r, 4));
            a.push(fault(r));
            a.push(r.below(15) as u64);
            Step::new("loft", &a)
        }
    });
}

pub fn exec14(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}
pub fn exec4(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let c04 = sc.prop == "C04";
    let want = Want { c04, ..Want::default() };
    let r = drive::<I>(sc, stats, want, &mut |ed, st| match st.op.as_str() {
        "loft" => loft_step(ed, st, c04),
        "solid" => solid_step(ed, st),
        "flat" => flat_step(ed, st),
        _ => Ok(()),
    });
    let n = if c04 {
        stats.get("op:insert_path") + stats.get("op:insert_loop") + stats.get("op:insert_polygon") + stats.get("loft:ok") + stats.get("loft:injected")
    } else {
        stats.get("loft:ok") + stats.get("solid:ok")
    };
    if n > 0 {
        stats.c("nontrivial");
    }
    r
}

// ---------------------------------------------------------------- the reference

/// A corner of the hem: a vertex of the mesh or the i-th new vertex.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum X {
    Old(usize),
    New(usize),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sym {
    E(usize),
    N(X, X),
}
fn code_x(x: X) -> u64 {
    match x {
        X::Old(v) => v as u64 + 1,
        X::New(i) => (1 << 24) + i as u64,
    }
}
fn code(s: Sym) -> u64 {
    match s {
        Sym::E(e) => e as u64,
        Sym::N(a, b) => (1 << 60) | code_x(a) << 30 | code_x(b),
    }
}

#[derive(Default, Debug, Clone)]
struct Plan {
    /// payload of each new vertex, as handed over or as it must be computed
    vps: Vec<VPd>,
    faces: Vec<Vec<Sym>>,
    open: Vec<Vec<Sym>>,
    /// old loops (their edges) that are replaced
    gone: Vec<Vec<usize>>,
    removed: Option<usize>,
    ret: Option<Sym>,
    /// the returned vertex is new vertex 0
    ret_v: bool,
}

/// Splits the loop `l` (starting with the edge that leaves b_0) forward: the hem's spokes leave
/// b_0, b_1, .. and lie inside the loop.
struct Fwd<'a> {
    s: &'a Snap,
    l: Vec<usize>,
    back: bool,
}
impl Fwd<'_> {
    /// the i-th vertex along the walk
    fn b(&self, i: usize) -> X {
        let n = self.l.len();
        X::Old(if self.back {
            // c_0 = target of the start edge, c_i = origin of the (i-1)-th edge backwards
            if i % n == 0 {
                self.s.target(self.l[0])
            } else {
                self.s.e[&self.l[(n - (i - 1) % n) % n]].origin
            }
        } else {
            self.s.e[&self.l[i % n]].origin
        })
    }
    /// the edge between the i-th and the (i+1)-th vertex of the walk
    fn d(&self, i: usize) -> Sym {
        let n = self.l.len();
        Sym::E(if self.back { self.l[(n - i % n) % n] } else { self.l[i % n] })
    }
    /// a cycle written in walk direction; reversed if the walk goes against the half-edges
    fn cyc(&self, mut c: Vec<Sym>) -> Vec<Sym> {
        if self.back {
            c.reverse();
            for s in c.iter_mut() {
                if let Sym::N(a, b) = *s {
                    *s = Sym::N(b, a);
                }
            }
        }
        c
    }
    fn hem(&self, i: usize, j: usize) -> Sym {
        Sym::N(X::New(i), X::New(j))
    }
}

fn plan_tri(w: &Fwd, k: usize, shift: bool, closed: bool, p: &mut Plan) {
    let l = w.l.len();
    let n = X::New;
    let mut faces: Vec<Vec<Sym>> = vec![];
    let mut open: Vec<Sym> = vec![];
    if k == 0 {
        p.open.push(w.cyc((0..l).map(|i| w.d(i)).collect()));
        p.ret = Some(w.d(0));
        return;
    }
    let last; // index of the last boundary vertex the hem is attached to
    if shift && k >= 2 {
        for i in 1..k {
            let b = w.b(i - 1);
            faces.push(vec![Sym::N(b, n(i)), w.hem(i, i - 1), Sym::N(n(i - 1), b)]);
            faces.push(vec![w.d(i - 1), Sym::N(w.b(i), n(i)), Sym::N(n(i), b)]);
        }
        last = k - 1;
    } else {
        for i in 0..k {
            let b = w.b(i);
            if i >= 1 {
                faces.push(vec![Sym::N(b, n(i)), w.hem(i, i - 1), Sym::N(n(i - 1), b)]);
            }
            if i + 1 < k {
                faces.push(vec![w.d(i), Sym::N(w.b(i + 1), n(i)), Sym::N(n(i), b)]);
            }
        }
        last = k - 1;
    }
    if closed {
        // the hem is closed: k == l
        faces.push(vec![w.d(l - 1), Sym::N(w.b(0), n(k - 1)), Sym::N(n(k - 1), w.b(k - 1))]);
        faces.push(vec![Sym::N(w.b(0), n(0)), w.hem(0, k - 1), Sym::N(n(k - 1), w.b(0))]);
        for i in 0..k {
            open.push(w.hem(i, (i + 1) % k));
        }
    } else {
        open.push(Sym::N(w.b(0), n(0)));
        for i in 1..k {
            open.push(w.hem(i - 1, i));
        }
        open.push(Sym::N(n(k - 1), w.b(last)));
        for i in last..l {
            open.push(w.d(i));
        }
    }
    p.faces.extend(faces.into_iter().map(|f| w.cyc(f)));
    p.open.push(w.cyc(open));
    p.ret = Some(match (closed, w.back) {
        (true, false) => Sym::N(n(0), n(1)),
        _ => Sym::N(n(0), w.b(0)),
    });
}

/// `None`: outside of what is promised
fn plan_poly(w: &Fwd, k: usize, n: usize, m: usize, p: &mut Plan) -> Option<()> {
    let l = w.l.len();
    let x = X::New;
    if m > l {
        return None;
    }
    if k == 0 {
        p.open.push(w.cyc((0..l).map(|i| w.d(i)).collect()));
        p.ret = Some(w.d(0));
        return Some(());
    }
    // number of spokes
    let a = 1 + (k - 1) / (n - 1);
    if a * (m - 1) > l {
        return None;
    }
    let full = (k - 1) % (n - 1);
    let closed = a * (m - 1) == l && full == n - 2;
    if closed && k < 3 {
        return None;
    }
    // the corner of the j-th face
    let face = |j: usize, end: X, ends_new: usize, stop: usize| -> Vec<Sym> {
        let mut f: Vec<Sym> = (j * (m - 1)..stop).map(|i| w.d(i)).collect();
        f.push(Sym::N(end, x(ends_new)));
        let lo = j * (n - 1);
        let mut q = ends_new;
        // along the hem back to the face's first spoke
        if closed && ends_new == 0 && lo != 0 {
            f.push(w.hem(0, k - 1));
            q = k - 1;
        }
        while q > lo {
            f.push(w.hem(q, q - 1));
            q -= 1;
        }
        f.push(Sym::N(x(lo), w.b(j * (m - 1))));
        f
    };
    let mut faces = vec![];
    for j in 0..a - 1 {
        faces.push(face(j, w.b((j + 1) * (m - 1)), (j + 1) * (n - 1), (j + 1) * (m - 1)));
    }
    let mut open = vec![];
    if closed {
        if a == 1 {
            return None;
        }
        faces.push(face(a - 1, w.b(0), 0, l));
        for i in 0..k {
            open.push(w.hem(i, (i + 1) % k));
        }
    } else {
        open.push(Sym::N(w.b(0), x(0)));
        let spoke = (a - 1) * (n - 1);
        for i in 0..k - 1 {
            open.push(w.hem(i, i + 1));
        }
        for i in (spoke..k - 1).rev() {
            open.push(w.hem(i + 1, i));
        }
        open.push(Sym::N(x(spoke), w.b((a - 1) * (m - 1))));
        for i in (a - 1) * (m - 1)..l {
            open.push(w.d(i));
        }
    }
    p.faces.extend(faces.into_iter().map(|f| w.cyc(f)));
    p.open.push(w.cyc(open));
    p.ret = Some(if k >= 2 { if w.back { Sym::N(x(1), x(0)) } else { Sym::N(x(0), x(1)) } } else { w.d(0) });
    Some(())
}

fn cap(p: &mut Plan) {
    let o = std::mem::take(&mut p.open);
    p.faces.extend(o);
}

/// Compares the mesh after the operation with the plan.
fn judge(before: &Snap, after: &Snap, p: &Plan) -> Result<Option<BTreeMap<usize, X>>, String> {
    let gone: BTreeSet<usize> = p.gone.iter().flatten().copied().collect();
    untouched(before, after, &gone, p.removed)?;
    // bind the new vertices by payload
    let news: Vec<usize> = after.v.keys().copied().filter(|v| !before.v.contains_key(v)).collect();
    if news.len() != p.vps.len() {
        return Err(format!("{} new vertices, expected {}", news.len(), p.vps.len()));
    }
    let mut by: BTreeMap<[u64; 9], usize> = BTreeMap::new();
    for (i, v) in p.vps.iter().enumerate() {
        if by.insert(v.bits(), i).is_some() {
            return Ok(None); // two new vertices cannot be told apart
        }
    }
    let mut bind: BTreeMap<usize, X> = BTreeMap::new();
    for v in &news {
        match by.remove(&after.v[v].p.bits()) {
            Some(i) => {
                bind.insert(*v, X::New(i));
            }
            None => return Err(format!("new vertex {v} has payload {:?}, which nobody supplied for it", after.v[v].p)),
        }
    }
    let vx = |v: usize| bind.get(&v).copied().unwrap_or(X::Old(v));
    let sym = |e: usize| -> u64 {
        if before.e.contains_key(&e) {
            code(Sym::E(e))
        } else {
            code(Sym::N(vx(after.e[&e].origin), vx(after.target(e))))
        }
    };
    let mut want: Vec<(bool, Vec<u64>)> = vec![];
    for (fs, cs) in [(true, &p.faces), (false, &p.open)] {
        for c in cs.iter() {
            want.push((fs, canon(&c.iter().map(|s| code(*s)).collect::<Vec<_>>())));
        }
    }
    want.sort();
    let mut got = vec![];
    let mut seen = BTreeSet::new();
    for (i, e) in &after.e {
        if (before.e.contains_key(i) && !gone.contains(i)) || seen.contains(i) {
            continue;
        }
        let l = after.lp(*i);
        seen.extend(l.iter().copied());
        got.push((e.face != NONE, canon(&l.iter().map(|e| sym(*e)).collect::<Vec<_>>())));
    }
    got.sort();
    if want != got {
        let show = |x: &[(bool, Vec<u64>)], y: &[(bool, Vec<u64>)]| -> String {
            x.iter()
                .filter(|c| !y.contains(c))
                .map(|(f, c)| format!("{}{:?}", if *f { "face" } else { "open" }, c.iter().map(|s| show(*s)).collect::<Vec<_>>()))
                .collect::<Vec<_>>()
                .join(" ")
        };
        fn show(s: u64) -> String {
            let x = |c: u64| if c >> 24 == 1 { format!("n{}", c & 0xffffff) } else { format!("{}", c - 1) };
            if s >> 60 == 1 {
                format!("{}-{}", x(s >> 30 & 0x3fffffff), x(s & 0x3fffffff))
            } else {
                format!("e{s}")
            }
        }
        return Err(format!("loops differ: missing {} unexpected {}", show(&want, &got), show(&got, &want)));
    }
    for (i, e) in &after.e {
        if !before.e.contains_key(i) && e.p != EPd::new(DEFAULT) {
            return Err(format!("new edge {i} does not carry the default payload"));
        }
    }
    for (i, f) in &after.f {
        if !before.f.contains_key(i) && (f.p.tag != DEFAULT || f.curved) {
            return Err(format!("new face {i} does not carry the default payload"));
        }
    }
    Ok(Some(bind))
}

/// Everything that was there before and is not on a loop in `gone` is as it was.
fn untouched(before: &Snap, after: &Snap, gone: &BTreeSet<usize>, removed: Option<usize>) -> Result<(), String> {
    for (i, v) in &before.v {
        match after.v.get(i) {
            Some(a) if a.p.bits() == v.p.bits() => {}
            Some(_) => return Err(format!("vertex {i}: payload changed")),
            None => return Err(format!("vertex {i} vanished")),
        }
    }
    for (i, e) in &before.e {
        let Some(a) = after.e.get(i) else { return Err(format!("edge {i} vanished")) };
        if a.p != e.p || a.origin != e.origin || a.twin != e.twin {
            return Err(format!("edge {i}: payload or ends changed"));
        }
        if !gone.contains(i) && (a.next, a.prev, a.face) != (e.next, e.prev, e.face) {
            return Err(format!("edge {i}: links changed though it is not on the boundary walked"));
        }
    }
    for (i, f) in &before.f {
        if Some(*i) == removed {
            continue;
        }
        match after.f.get(i) {
            Some(a) if a.p == f.p && a.curved == f.curved => {}
            _ => return Err(format!("face {i} vanished or changed")),
        }
    }
    Ok(())
}

fn loft_step<I: Ix>(ed: &mut Editor<I>, st: &Step, c04: bool) -> Result<(), Violation> {
    let kind = (st.arg(0) % 13) as usize;
    let name = LOFTS[kind];
    let (x, y, z, w) = (st.arg(1), st.arg(2), st.arg(3), st.arg(4));
    let (fault, hint) = (st.arg(5), st.arg(6));
    let before = ed.cur.clone();
    let bnd: Vec<usize> = before.e.iter().filter(|(_, e)| e.face == NONE).map(|(i, _)| *i).collect();
    let faces: Vec<usize> = before.f.keys().copied().collect();
    let pick = |v: &[usize], q: u64| if v.is_empty() { None } else { Some(v[(q % v.len() as u64) as usize]) };
    let mut p = Plan::default();
    // the start edge and its loop
    let mut removed = None;
    let start = match kind {
        8 | 11 => {
            let Some(f) = pick(&faces, x) else { return Ok(()) };
            removed = Some(f);
            before.f[&f].edge
        }
        12 => {
            if faces.is_empty() {
                return Ok(());
            }
            0
        }
        _ => match pick(&bnd, x) {
            Some(e) => e,
            None => return Ok(()),
        },
    };
    p.removed = removed;
    let q = |k: u64| (k % 13) as f64 / 2.0 - 3.25;
    let tf = tf_aff(&if z % 3 == 0 { Tf::Translate([q(x), q(y), q(w)]) } else { Tf::Affine([q(x) + 5.0, 0.5, 2.0], [q(y), 1.0, q(z)]) });
    let shift = z % 2 == 1;
    let (n, m) = if kind == 5 { (2 + (z % 4) as usize, 2 + (z / 4 % 3) as usize) } else { (2, 2) };
    let mut vps: Vec<VPd> = vec![];
    let distinct = |l: &[usize]| l.iter().map(|e| before.e[e].origin).collect::<BTreeSet<_>>().len() == l.len();
    if kind != 12 {
        let l = before.lp(start);
        let len = l.len();
        if before.e.len() + 6 * len + 10 > I::CAP.min(400) {
            return Ok(());
        }
        if !distinct(&l) {
            ed.stats.c("loops-with-repeated-vertices");
        }
        p.gone.push(l.clone());
        let back = matches!(kind, 1 | 3 | 5 | 7 | 8);
        let wk = Fwd { s: &before, l, back };
        let tr = |x: X| -> VPd {
            let X::Old(v) = x else { unreachable!() };
            let mut d = before.v[&v].p;
            d.transform(&tf);
            d
        };
        match kind {
            0..=5 => {
                let k = match kind {
                    0 | 1 => (y as usize) % (len + 1),
                    2 | 3 => len,
                    _ => {
                        // preferably once around
                        let turn = len / (m - 1) * (n - 1);
                        if y % 3 != 0 {
                            turn
                        } else {
                            (y / 3) as usize % (turn + 1)
                        }
                    }
                };
                vps = (0..k).map(|_| new_vp()).collect();
                let ok = match kind {
                    0 | 1 => {
                        plan_tri(&wk, k, shift, false, &mut p);
                        true
                    }
                    2 | 3 => {
                        let ok = len >= 3;
                        if ok {
                            plan_tri(&wk, k, false, true, &mut p);
                        }
                        ok
                    }
                    _ => plan_poly(&wk, k, n, m, &mut p).is_some(),
                };
                if !ok {
                    return Ok(());
                }
                p.vps = vps.clone();
            }
            6 => {
                // every corner is joined to the apex once
                if !distinct(&wk.l) {
                    return Ok(());
                }
                vps = vec![new_vp()];
                p.vps = vps.clone();
                let a = X::New(0);
                for i in 0..len {
                    p.faces.push(vec![wk.d(i), Sym::N(wk.b(i + 1), a), Sym::N(a, wk.b(i))]);
                }
                p.ret_v = true;
            }
            7 | 8 => {
                if len < 3 {
                    return Ok(());
                }
                p.vps = (0..len).map(|i| tr(wk.b(i))).collect();
                if plan_poly(&wk, len, 2, 2, &mut p).is_none() {
                    return Ok(());
                }
                cap(&mut p);
            }
            _ => {
                if len < 3 {
                    return Ok(());
                }
                p.vps = (0..len)
                    .map(|i| {
                        if kind == 10 {
                            let mut a = tr(wk.b(i));
                            a.lerp(&tr(wk.b(i + 1)), 0.5);
                            a
                        } else {
                            tr(wk.b(i + 1))
                        }
                    })
                    .collect();
                plan_tri(&wk, len, false, true, &mut p);
                cap(&mut p);
            }
        }
    } else {
        // every boundary that touches a face is extruded
        let mut seen = BTreeSet::new();
        let mut base = 0;
        for e in before.e.keys() {
            if before.e[e].face != NONE || before.e[&before.e[e].twin].face == NONE || seen.contains(e) {
                continue;
            }
            let l = before.lp(*e);
            seen.extend(l.iter().copied());
            if l.len() < 3 {
                return Ok(());
            }
            let wk = Fwd { s: &before, l: l.clone(), back: true };
            let mut q = Plan::default();
            if plan_poly(&wk, l.len(), 2, 2, &mut q).is_none() {
                return Ok(());
            }
            cap(&mut q);
            let up = |x: X| if let X::New(i) = x { X::New(i + base) } else { x };
            for f in q.faces {
                p.faces.push(f.into_iter().map(|s| if let Sym::N(a, b) = s { Sym::N(up(a), up(b)) } else { s }).collect());
            }
            for i in 0..l.len() {
                let X::Old(v) = wk.b(i) else { unreachable!() };
                let mut d = before.v[&v].p;
                d.transform(&tf);
                p.vps.push(d);
            }
            base += l.len();
            p.gone.push(l);
        }
        if before.e.len() + 6 * base + 10 > I::CAP.min(400) {
            return Ok(());
        }
        if base > 0 {
            ed.stats.c("extrude_boundary-nonempty");
        }
    }
    // ---- the call
    let pulled = Pulls::default();
    let s0 = mk::<I>(start);
    let items: Vec<VP> = vps.iter().map(|v| VP(*v)).collect();
    let mesh = &mut ed.mesh;
    let side = (hint / 5 % 3 == 2 && kind <= 5).then(SideMesh::<I>::start);
    if fault > 0 {
        arm(fault - 1);
    }
    let strm = stream(items, hint, pulled.clone(), || VP(new_vp()));
    enum R<I> {
        E(I),
        V(I),
        N,
    }
    let res = call(|| match kind {
        0 => R::E(mesh.loft_tri(s0, shift, strm)),
        1 => R::E(mesh.loft_tri_back(s0, shift, strm)),
        2 => R::E(mesh.loft_tri_closed(s0, strm)),
        3 => R::E(mesh.loft_tri_back_closed(s0, strm)),
        4 => R::E(mesh.loft_polygon(s0, 2, 2, strm)),
        5 => R::E(mesh.loft_polygon_back(s0, n, m, strm)),
        6 => R::V(mesh.fill_hole_apex(s0, VP(vps[0]))),
        7 => R::E(mesh.extrude(s0, tf)),
        8 => R::E(mesh.extrude_face(mk::<I>(removed.unwrap()), tf)),
        9 => R::E(mesh.extrude_tri(s0, tf)),
        10 => R::E(mesh.extrude_tri2(s0, tf)),
        11 => R::E(mesh.extrude_tri_face(mk::<I>(removed.unwrap()), tf)),
        _ => {
            mesh.extrude_boundary(tf);
            R::N
        }
    });
    let fired = fault > 0 && !disarm();
    set_side(None);
    let what = format!(
        "{name}{}",
        match kind {
            0 | 1 => format!("(start {start}, shift {shift}, {} elements)", vps.len()),
            5 => format!("(start {start}, n {n}, m {m}, {} elements)", vps.len()),
            12 => String::new(),
            _ => format!("(start {start}, {} elements)", vps.len()),
        }
    );
    ed.stats.c(&format!("loft:{}", res.name()));
    ed.stats.c(&format!("op:{name}"));
    let after = match snapshot::<I>(&ed.mesh) {
        Ok(a) => a,
        Err(m) => return viol(format!("{name}:unreadable"), format!("{what}: {m}")),
    };
    ed.stats.t(after.hash());
    ed.stats.t(crate::rng::hstr(res.name()));
    if let Err(m) = integrity(&after) {
        let k = match res {
            Res::Injected => "abort-integrity",
            Res::Ok(_) => "integrity",
            _ => "refuse-integrity",
        };
        return viol(format!("{name}:{k}"), format!("{what}: {m}"));
    }
    if let Some(side) = side {
        if !fired {
            match side.finish() {
                Ok(n) => ed.stats.add("side-mesh-edits", n),
                Err(m) => return viol(format!("{name}:side-mesh"), format!("{what}: {m}")),
            }
        }
    }
    match res {
        Res::Budget => return viol(format!("{name}:nontermination"), what),
        Res::Injected => {
            ed.stats.c("aborted-by-fault");
            ed.leaks += 8;
            let gone: BTreeSet<usize> = p.gone.iter().flatten().copied().collect();
            if let Err(m) = untouched(&before, &after, &gone, removed) {
                return viol(format!("{name}:abort-effect"), format!("{what}, fault {fault}: {m}"));
            }
            // only elements pulled so far may appear
            let ok: BTreeSet<u64> = vps.iter().take(pulled.get()).map(|v| v.tag).collect();
            for (i, v) in &after.v {
                if !before.v.contains_key(i) && kind <= 5 && !ok.contains(&v.p.tag) {
                    return viol(format!("{name}:abort-payload"), format!("{what}, fault {fault}: vertex {i} {:?} was not pulled", v.p));
                }
            }
            if kind <= 5 {
                // every edge and face that appeared belongs to the hem that was asked for
                for (i, f) in &after.f {
                    if !before.f.contains_key(i) && f.p.tag != DEFAULT {
                        return viol(format!("{name}:abort-payload"), format!("{what}: face {i}"));
                    }
                }
            }
        }
        Res::Panic(m) => {
            if I::CAP < 1000 && before.e.len() + 6 * before.e.len() + ed.leaks > I::CAP {
                ed.stats.c("refused-exhausted");
            } else {
                return viol(format!("{name}:valid-request-panicked"), format!("{what} panicked: {m}"));
            }
        }
        Res::Ok(r) => {
            if fired {
                return viol(format!("{name}:fault-swallowed"), what);
            }
            if kind <= 5 && pulled.get() != vps.len() {
                return viol(format!("{name}:pulls"), format!("{what}: pulled {} of {} stream elements", pulled.get(), vps.len()));
            }
            match judge(&before, &after, &p) {
                Err(m) => return viol(format!("{name}:effect:{}", class(&m)), format!("{what}: {m}")),
                Ok(None) => ed.stats.c("ambiguous-new-vertices"),
                Ok(Some(bind)) => {
                    let vx = |v: usize| bind.get(&v).copied().unwrap_or(X::Old(v));
                    match r {
                        R::N => {}
                        R::V(v) => {
                            if p.ret_v && vx(ix(v)) != X::New(0) {
                                return viol(format!("{name}:handle"), format!("{what}: returned vertex {}", ix(v)));
                            }
                        }
                        R::E(e) => {
                            let e = ix(e);
                            let got = if before.e.contains_key(&e) {
                                Sym::E(e)
                            } else if after.e.contains_key(&e) {
                                Sym::N(vx(after.e[&e].origin), vx(after.target(e)))
                            } else {
                                return viol(format!("{name}:handle"), format!("{what}: returned dead edge {e}"));
                            };
                            if let Some(w) = p.ret {
                                if w != got {
                                    return viol(format!("{name}:handle"), format!("{what}: returned {got:?}, expected {w:?}"));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let _ = c04;
    refresh(ed);
    Ok(())
}

// ---------------------------------------------------------------- solids

const SOLIDS: [&str; 24] = [
    "insert_prism",
    "insert_antiprism",
    "insert_antiprism_iter",
    "insert_pyramid",
    "insert_frustum",
    "cuboid",
    "cube",
    "regular_hexahedron",
    "regular_pyramid",
    "cone",
    "regular_tetrahedron",
    "regular_octahedron",
    "regular_frustum",
    "cylinder",
    "regular_prism",
    "uniform_prism",
    "regular_antiprism",
    "uniform_antiprism",
    "uv_sphere",
    "dodecahedron",
    "regular_icosahedron",
    "geodesic_icosahedron",
    "geodesic_tetrahedron",
    "geodesic_octahedron",
];

/// Signed volume of the closed surface formed by the given faces.
fn volume(s: &Snap, faces: &[usize]) -> f64 {
    let mut vol = 0.0;
    for f in faces {
        let p: Vec<V3> = s.face_verts(*f).iter().map(|v| s.v[v].p.pos).collect();
        // fan from the centroid: symmetric in the corners
        let c = p.iter().fold(V3::zeros(), |a, b| a + b) / p.len() as f64;
        for i in 0..p.len() {
            vol += c.dot(&p[i].cross(&p[(i + 1) % p.len()])) / 6.0;
        }
    }
    vol
}

/// Flat shapes: regular polygons and stars, free polygons, dihedra; and the helpers that generate
/// or measure outlines.
fn flat_step<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let kind = st.arg(0) % 7;
    let mut n = 3 + (st.arg(1) % 14) as usize;
    let (r1, r2) = (0.5 + (st.arg(2) % 9) as f64 / 2.0, 0.5 + (st.arg(3) % 7) as f64 / 2.0);
    if kind >= 5 {
        // outline generators
        let seed = st.arg(2) ^ st.arg(3) << 32;
        set_entropy(seed);
        if kind == 5 {
            n = 4 * (1 + n / 2);
            let p: Vec<procedural_modelling::extensions::nalgebra::Vec2<f64>> = match call(|| generate_zigzag(n).collect()) {
                Res::Ok(p) => p,
                o => return viol("generate_zigzag:failed", format!("n {n}: {o:?}")),
            };
            let q: Vec<[f64; 2]> = p.iter().map(|p| [p[0], p[1]]).collect();
            if q.len() != n || q.iter().any(|p| p[0].abs() > 1.0 + 1e-9 || p[1].abs() > 2.0 + 1e-9) || !crate::geom::shape(&q).simple {
                return viol("generate_zigzag:shape", format!("n {n}: {q:?}"));
            }
        } else {
            let (lo, hi) = (3 + n / 3, 3 + n);
            let (a, b) = (r1.min(r2) as f32, (r1.max(r2) + 0.25) as f32);
            let p: Vec<procedural_modelling::extensions::nalgebra::Vec2<f64>> = match call(|| random_star(lo, hi, a, b).collect()) {
                Res::Ok(p) => p,
                o => return viol("random_star:failed", format!("{lo}..={hi}: {o:?}")),
            };
            for (i, q) in p.iter().enumerate() {
                let t = i as f64 / p.len() as f64 * std::f64::consts::TAU;
                let (r, s) = ((q[0] * q[0] + q[1] * q[1]).sqrt(), q[1] * t.cos() - q[0] * t.sin());
                if r < a as f64 - 1e-4 || r > b as f64 + 1e-4 || s.abs() > 1e-4 * r || q[0] * t.cos() + q[1] * t.sin() <= 0.0 {
                    return viol("random_star:shape", format!("point {i} of {} is {q:?}, radii {a}..{b}", p.len()));
                }
            }
            if p.len() < lo || p.len() > hi {
                return viol("random_star:count", format!("{} points, asked for {lo}..={hi}", p.len()));
            }
        }
        ed.stats.c("outlines-generated");
        return Ok(());
    }
    if 2 * n > I::CAP / 2 {
        return Ok(());
    }
    let given: Vec<VPd> = (0..n).map(|_| new_vp()).collect();
    let m = match call(|| match kind {
        0 => M::<I>::regular_polygon::<3>(r1, n),
        1 | 2 => M::<I>::regular_star::<3>(r1, r2, n),
        3 => M::<I>::polygon(given.clone().into_iter().map(VP)),
        _ => M::<I>::dihedron(given.clone().into_iter().map(VP)),
    }) {
        Res::Ok(m) => m,
        o => return viol("flat:failed", format!("kind {kind}, n {n}: {o:?}")),
    };
    let what = format!("flat shape {kind} with {n} corners, radii {r1} {r2}");
    let s = match snapshot::<I>(&m) {
        Ok(s) => s,
        Err(e) => return viol("flat:unreadable", format!("{what}: {e}")),
    };
    if let Err(e) = integrity(&s) {
        return viol("flat:integrity", format!("{what}: {e}"));
    }
    ed.stats.c("flat-shapes");
    ed.stats.t(s.hash());
    let nf = if kind == 4 { 2 } else { 1 };
    if s.v.len() != n || s.e.len() != 2 * n || s.f.len() != nf || s.f.keys().any(|f| s.face_loop(*f).len() != n) {
        return viol("flat:counts", format!("{what}: {} vertices, {} half-edges, {} faces", s.v.len(), s.e.len(), s.f.len()));
    }
    let f = *s.f.keys().next().unwrap();
    let vs = s.face_verts(f);
    if kind >= 3 {
        for g in s.f.keys() {
            let mut tags: Vec<u64> = s.face_verts(*g).iter().map(|v| s.v[v].p.tag).collect();
            let want: Vec<u64> = given.iter().map(|v| v.tag).collect();
            let Some(k) = tags.iter().position(|t| *t == want[0]) else {
                return viol("flat:payload", format!("{what}: face {g}"));
            };
            tags.rotate_left(k);
            let rev: Vec<u64> = std::iter::once(want[0]).chain(want[1..].iter().rev().copied()).collect();
            if tags != want && tags != rev {
                return viol("flat:payload", format!("{what}: face {g} has corners {tags:x?} instead of {want:x?}"));
            }
        }
        return Ok(());
    }
    // all corners at equal angles around the origin, alternating radii, in loop order
    let tau = std::f64::consts::TAU;
    let p: Vec<V3> = vs.iter().map(|v| s.v[v].p.pos).collect();
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-5 * (1.0 + b.abs());
    let rs: Vec<f64> = p.iter().map(|q| q.norm()).collect();
    for i in 0..n {
        let j = (i + 1) % n;
        if p[i][2] != 0.0 {
            return viol("flat:plane", format!("{what}: corner {:?}", p[i]));
        }
        let (c, d) = (p[i].dot(&p[j]), p[i].cross(&p[j])[2]);
        let a = d.atan2(c).abs();
        if !near(a, tau / n as f64) {
            return viol("flat:angle", format!("{what}: corners {i}, {j} are {a} apart"));
        }
    }
    let inner = r1;
    let outer = if kind == 0 { r1 } else { r2 };
    let k = rs.iter().filter(|r| near(**r, inner)).count();
    let l = rs.iter().filter(|r| near(**r, outer)).count();
    let ok = if near(inner, outer) { k == n } else { k == n - n / 2 && l == n / 2 && (0..n).filter(|i| near(rs[*i], rs[(*i + 1) % n])).count() == n % 2 };
    if !ok {
        return viol("flat:radius", format!("{what}: radii {rs:?}"));
    }
    if kind == 0 {
        let w = crate::geom::newell(&p).norm() / 2.0;
        let a = regular_polygon_area(r1, n);
        let side = regular_polygon_sidelength(r1, n);
        if !near(a, w) || !near(side, (p[1] - p[0]).norm()) {
            return viol("flat:measures", format!("{what}: area {w}, side {}, but the helpers say {a}, {side}", (p[1] - p[0]).norm()));
        }
    }
    Ok(())
}

fn solid_step<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let kind = (st.arg(0) % 24) as usize;
    let name = SOLIDS[kind];
    let n = 3 + (st.arg(1) % 7) as usize;
    let m = 2 + (st.arg(2) % 4) as usize;
    let lev = [1usize, 2, 4][(st.arg(2) % 3) as usize];
    let size = 0.5 + (st.arg(3) % 9) as f64 / 2.0;
    let h = 0.5 + (st.arg(2) % 5) as f64;
    let insert = kind <= 4;
    let before = if insert { ed.cur.clone() } else { Snap::default() };
    // face sizes of the result
    let mut deg: BTreeMap<usize, usize> = BTreeMap::new();
    let mut add = |d: usize, c: usize| {
        if c > 0 {
            *deg.entry(d).or_default() += c;
        }
    };
    let geo = |v: usize, e: usize, f: usize| {
        let k = lev * lev;
        (2 + e * k - f * k, e * k, f * k, v)
    };
    let nv = match kind {
        0 | 4 | 12..=15 => {
            add(n, 2);
            add(4, n);
            2 * n
        }
        1 | 2 | 16 | 17 => {
            add(n, 2);
            add(3, 2 * n);
            2 * n
        }
        3 | 8 | 9 => {
            add(n, 1);
            add(3, n);
            n + 1
        }
        5 | 6 | 7 => {
            add(4, 6);
            8
        }
        10 => {
            add(3, 4);
            4
        }
        11 => {
            add(3, 8);
            6
        }
        18 => {
            add(3, 2 * n);
            add(4, n * (m - 2));
            n * (m - 1) + 2
        }
        19 => {
            add(5, 12);
            20
        }
        20 => {
            add(3, 20);
            12
        }
        21 => {
            let g = geo(12, 30, 20);
            add(3, g.2);
            g.0
        }
        22 => {
            let g = geo(4, 6, 4);
            add(3, g.2);
            g.0
        }
        _ => {
            let g = geo(6, 12, 8);
            add(3, g.2);
            g.0
        }
    };
    let nh: usize = deg.iter().map(|(d, c)| d * c).sum();
    if before.e.len() + 2 * nh + ed.leaks > I::CAP || before.e.len() + nh > 2600 {
        return Ok(());
    }
    // the caller's outlines: planar polygons anywhere in space
    let mut r = Rng::new(st.arg(3) ^ st.arg(1) << 20);
    let pk = 1 + r.below(3) as u64;
    let mut outline = crate::geom::polygon(&mut r, pk, n);
    if kind == 1 {
        // the top of this antiprism joins the middles of the sides
        outline = (0..n)
            .map(|i| {
                let t = i as f64 / n as f64 * std::f64::consts::TAU;
                [size * t.cos(), size * t.sin()]
            })
            .collect();
    }
    if insert && outline.len() != n {
        return Ok(());
    }
    let pl = crate::geom::placement(&mut r, 3);
    let base: Vec<VPd> = outline.iter().map(|p| VPd::new(fresh_tag(), pl.at(*p))).collect();
    let top: Vec<VPd> = (0..n).map(|_| new_vp()).collect();
    let apex = new_vp();
    let it = |v: &Vec<VPd>| v.clone().into_iter().map(VP);
    let mut fresh: Option<M<I>> = None;
    let mesh = &mut ed.mesh;
    let res = call(|| match kind {
        0 => Some(mesh.insert_prism(it(&base), h)),
        1 => Some(mesh.insert_antiprism(it(&base), h)),
        2 => Some(mesh.insert_antiprism_iter(it(&base), it(&top))),
        3 => Some(mesh.insert_pyramid(it(&base), VP(apex))),
        4 => Some(mesh.insert_frustum(it(&base), it(&top), false)),
        k => {
            fresh = Some(match k {
                5 => M::<I>::cuboid(V3::new(size, h, size + 1.0)),
                6 => M::<I>::cube(size),
                7 => M::<I>::regular_hexahedron(size),
                8 => M::<I>::regular_pyramid(size, h, n),
                9 => M::<I>::cone(size, h, n),
                10 => M::<I>::regular_tetrahedron(size),
                11 => M::<I>::regular_octahedron(size),
                12 => M::<I>::regular_frustum(size, size / 2.0, h, n, false),
                13 => M::<I>::cylinder(size, h, n),
                14 => M::<I>::regular_prism(size, h, n),
                15 => M::<I>::uniform_prism(size, n),
                16 => M::<I>::regular_antiprism(size, h, n),
                17 => M::<I>::uniform_antiprism(size, n),
                18 => M::<I>::uv_sphere(size, m, n),
                19 => M::<I>::dodecahedron(size),
                20 => M::<I>::regular_icosahedron(size),
                21 => M::<I>::geodesic_icosahedron(size, lev),
                22 => M::<I>::geodesic_tetrahedron(size, lev),
                _ => M::<I>::geodesic_octahedron(size, lev),
            });
            None
        }
    });
    let what = format!("{name} (n {n}, m {m}, level {lev}, size {size}, height {h})");
    ed.stats.c(&format!("solid:{}", res.name()));
    ed.stats.c(&format!("op:{name}"));
    let ret = match res {
        Res::Ok(r) => r,
        Res::Budget => return viol(format!("{name}:nontermination"), what),
        o => return viol(format!("{name}:failed"), format!("{what}: {o:?}")),
    };
    let after = match snapshot::<I>(if insert { &ed.mesh } else { fresh.as_ref().unwrap() }) {
        Ok(a) => a,
        Err(m) => return viol(format!("{name}:unreadable"), format!("{what}: {m}")),
    };
    ed.stats.t(after.hash());
    ed.stats.state(after.shape_hash());
    if let Err(m) = integrity(&after) {
        return viol(format!("{name}:integrity"), format!("{what}: {m}"));
    }
    if let Err(m) = untouched(&before, &after, &BTreeSet::new(), None) {
        return viol(format!("{name}:effect"), format!("{what}: {m}"));
    }
    let v: Vec<usize> = after.v.keys().copied().filter(|i| !before.v.contains_key(i)).collect();
    let e: Vec<usize> = after.e.keys().copied().filter(|i| !before.e.contains_key(i)).collect();
    let f: Vec<usize> = after.f.keys().copied().filter(|i| !before.f.contains_key(i)).collect();
    if let Some(x) = e.iter().find(|x| after.e[x].face == NONE) {
        return viol(format!("{name}:open"), format!("{what}: half-edge {x} has no face"));
    }
    let mut got: BTreeMap<usize, usize> = BTreeMap::new();
    for x in &f {
        *got.entry(after.face_loop(*x).len()).or_default() += 1;
    }
    if v.len() != nv || e.len() != nh || got != deg {
        return viol(
            format!("{name}:counts"),
            format!("{what}: {} vertices, {} half-edges, faces by size {got:?}; expected {nv}, {nh}, {deg:?}", v.len(), e.len()),
        );
    }
    if v.len() + f.len() != e.len() / 2 + 2 {
        return viol(format!("{name}:euler"), what);
    }
    if after.components() != before.components() + 1 {
        return viol(format!("{name}:components"), what);
    }
    // no two half-edges with the same ends: the surface is a proper polyhedron
    let mut ends = BTreeSet::new();
    for x in &e {
        if !ends.insert((after.e[x].origin, after.target(*x))) {
            return viol(format!("{name}:double-edge"), what);
        }
    }
    if let Some(r) = ret {
        if !e.contains(&ix(r)) {
            return viol(format!("{name}:handle"), format!("{what}: returned edge {}", ix(r)));
        }
    }
    let pos = |i: usize| after.v[&i].p.pos;
    if insert {
        let mut tags: BTreeSet<u64> = base.iter().map(|p| p.tag).collect();
        match kind {
            2 | 4 => tags.extend(top.iter().map(|p| p.tag)),
            3 => {
                tags.insert(apex.tag);
            }
            _ => {}
        }
        let have: BTreeSet<u64> = v.iter().map(|i| after.v[i].p.tag).collect();
        if let Some(t) = tags.iter().find(|t| !have.contains(t)) {
            return viol(format!("{name}:payload"), format!("{what}: the vertex tagged {t:x} is missing"));
        }
        if matches!(kind, 0 | 1) {
            // a straight prism over the outline; the antiprism's top joins the middles of the sides
            let w = crate::geom::newell(&base.iter().map(|p| p.pos).collect::<Vec<_>>());
            let area = w.dot(&w).sqrt() / 2.0;
            let vol = volume(&after, &f);
            if kind == 0 && (vol.abs() - area * h).abs() > 1e-6 * (1.0 + area * h) {
                return viol(format!("{name}:volume"), format!("{what}: volume {vol}, expected {}", area * h));
            }
            if vol <= 0.0 {
                return viol(format!("{name}:inside-out"), format!("{what}: volume {vol}"));
            }
        }
    } else {
        let vol = volume(&after, &f);
        if !(vol > 0.0) {
            return viol(format!("{name}:inside-out"), format!("{what}: volume {vol}"));
        }
        // documented sizes
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs());
        let len = |x: &usize| {
            let d = pos(after.e[x].origin) - pos(after.target(*x));
            d.dot(&d).sqrt()
        };
        let rad = |i: &usize| pos(*i).dot(&pos(*i)).sqrt();
        let radius = match kind {
            11 | 18 | 19 | 21 | 22 | 23 => Some(size),
            _ => None,
        };
        if let Some(q) = radius {
            if let Some(i) = v.iter().find(|i| !near(rad(i), q)) {
                return viol(format!("{name}:radius"), format!("{what}: vertex {i} at distance {} from the centre", rad(i)));
            }
        }
        if matches!(kind, 10 | 20 | 6 | 7) {
            if let Some(x) = e.iter().find(|x| !near(len(x), size)) {
                return viol(format!("{name}:edge-length"), format!("{what}: edge {x} has length {}", len(x)));
            }
        }
        if matches!(kind, 11 | 15 | 17 | 19) {
            if let Some(x) = e.iter().find(|x| !near(len(x), len(&e[0]))) {
                return viol(format!("{name}:edge-length"), format!("{what}: edge {x} has length {}", len(x)));
            }
        }
        // documented placement: rings around the y axis, boxes along the axes, centres at the origin
        let bad = |q: &str, t: String| viol(format!("{name}:{q}"), format!("{what}: {t}"));
        let ext = |k: usize| {
            let (mut lo, mut hi) = (f64::MAX, f64::MIN);
            for i in &v {
                lo = lo.min(pos(*i)[k]);
                hi = hi.max(pos(*i)[k]);
            }
            (lo, hi)
        };
        match kind {
            5..=7 => {
                let dims = if kind == 5 { [size, h, size + 1.0] } else { [size; 3] };
                for k in 0..3 {
                    if !near(ext(k).1 - ext(k).0, dims[k]) {
                        return bad("size", format!("extends over {:?} along axis {k} instead of {}", ext(k), dims[k]));
                    }
                }
            }
            10 | 11 | 19..=23 => {
                let c = v.iter().fold(V3::zeros(), |a, i| a + pos(*i)) / v.len() as f64;
                if c.norm() > 1e-9 * (1.0 + size) {
                    return bad("centre", format!("centred at {c:?}"));
                }
            }
            8 | 9 | 12..=17 => {
                let hh = match kind {
                    15 => 2.0 * size * (std::f64::consts::PI / n as f64).sin(),
                    17 => ext(1).1 - ext(1).0,
                    _ => h,
                };
                if !near(ext(1).1 - ext(1).0, hh) {
                    return bad("height", format!("extends over {:?}, not {hh}", ext(1)));
                }
                let mut rings = vec![0; 3];
                for i in &v {
                    let q = pos(*i);
                    let r = (q[0] * q[0] + q[2] * q[2]).sqrt();
                    let want = [size, if kind == 12 { size / 2.0 } else { size }, 0.0];
                    let level = near(q[1], ext(1).0) || near(q[1], ext(1).1);
                    let Some(k) = (0..3).find(|k| near(r, want[*k])) else {
                        return bad("radius", format!("vertex {i} is {r} from the axis"));
                    };
                    if !level {
                        return bad("height", format!("vertex {i} at height {}", q[1]));
                    }
                    rings[k] += 1;
                }
                let want = match kind {
                    8 | 9 => [n, 0, 1],
                    12 => [n, n, 0],
                    _ => [2 * n, 0, 0],
                };
                if rings != want {
                    return bad("rings", format!("{rings:?} vertices at the radii, expected {want:?}"));
                }
            }
            _ => {}
        }
        if kind == 20 {
            let r = procedural_modelling::primitives::icosahedron_a2r(size);
            if let Some(i) = v.iter().find(|i| !near(rad(i), r)) {
                return bad("radius", format!("vertex {i} at {} from the centre, icosahedron_a2r says {r}", rad(i)));
            }
            if !near(procedural_modelling::primitives::icosahedron_r2a(r), size) {
                return bad("radius", format!("icosahedron_r2a({r}) is not {size}"));
            }
        }
        let ngon = |r: f64| n as f64 / 2.0 * r * r * (std::f64::consts::TAU / n as f64).sin();
        let want = match kind {
            5 => Some(size * h * (size + 1.0)),
            8 | 9 => Some(ngon(size) * h / 3.0),
            12 => Some(ngon(size) * h * (1.0 + 0.5 + 0.25) / 3.0),
            13 | 14 => Some(ngon(size) * h),
            15 => Some(ngon(size) * 2.0 * size * (std::f64::consts::PI / n as f64).sin()),
            _ => None,
        };
        if let Some(w) = want {
            if !near(vol, w) {
                return viol(format!("{name}:volume"), format!("{what}: volume {vol}, expected {w}"));
            }
        }
        if let Some(x) = f.iter().find(|x| {
            let p: Vec<V3> = after.face_verts(**x).iter().map(|v| pos(*v)).collect();
            let c = v.iter().fold(V3::zeros(), |a, i| a + pos(*i)) / v.len() as f64;
            crate::geom::newell(&p).dot(&(p[0] - c)) <= 0.0
        }) {
            return viol(format!("{name}:face-orientation"), format!("{what}: face {x} faces inwards"));
        }
    }
    if insert {
        refresh(ed);
    }
    Ok(())
}
