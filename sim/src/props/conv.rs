//! C11: clones, transformed and flipped copies, curve flattening, conversion to other dimensions.

use super::*;
use crate::by_index;
use crate::env::*;
use crate::model::*;
use crate::rng::mix2;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;
use procedural_modelling::primitives::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    let real = idx % 2 == 0;
    sc.set("it", if real { 0 } else { [0, 1, 2, 0][(idx / 2 % 4) as usize] });
    let len = if idx % 16 == 15 { 60 } else { 4 + r.below(30) };
    let faults = r.chance(1, 4) && !real;
    gen_history(r, sc, len, faults, 4);
    if real {
        sc.steps.retain(|s| s.op != "build");
        sc.steps.insert(0, Step::new("do-polygon", &[0, 3, 0, 0, 0, 0, 0]));
    }
    let n = 2 + r.below(5);
    sprinkle(r, sc, n, &mut |r| {
        if real {
            return Step::new(*r.pick(&["nd", "nd", "real"]), &args(r, 5));
        }
        match r.below(6) {
            0 => Step::new("fork", &args(r, 2)),
            1 => Step::new("fork", &args(r, 2)),
            2 => Step::new("copies", &args(r, 4)),
            _ => {
                let mut a = args(r, 4);
                a.push(if r.chance(1, 4) { 1 + r.below(30) as u64 } else { 0 });
                Step::new("flat", &a)
            }
        }
    });
    if !real {
        // after a fork, both meshes are edited, alone and in step
        let n = r.below(16);
        for _ in 0..n {
            let mut a = args(r, 3);
            a.extend([r.below(4) as u64 * 2, 0]);
            let k = *r.pick(&KINDS);
            let st = if r.chance(1, 2) {
                a.push(if r.chance(1, 6) { 1 + r.below(9) as u64 } else { 0 });
                a.push(0);
                Step::new(&format!("fork-{k}"), &a)
            } else {
                Step::new(&format!("both-{k}"), &a)
            };
            let at = r.below(sc.steps.len() + 1);
            sc.steps.insert(at, st);
        }
        for _ in 0..r.below(3) {
            // lock-step edits right after a fork
            let k = *r.pick(&KINDS);
            let mut a = args(r, 3);
            a.extend([r.below(4) as u64 * 2, 0]);
            if let Some(p) = sc.steps.iter().rposition(|s| s.op == "fork") {
                sc.steps.insert(p + 1, Step::new(&format!("both-{k}"), &a));
            }
        }
    }
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

struct Fork<I: Ix> {
    ed: Editor<I>,
    sync: bool,
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, Want::default());
    let mut fork: Option<Fork<I>> = None;
    // what has been asked of the mesh so far, for replaying it on the crate's own mesh types
    let mut log: Option<Vec<Req>> = Some(vec![]);
    let mut saved_log: Option<Vec<Req>> = None;
    ed.log = Some(vec![]);
    let mut res = Ok(());
    for st in &sc.steps {
        res = step(&mut ed, &mut fork, &mut log, &mut saved_log, st);
        if res.is_err() || ed.dead {
            break;
        }
    }
    if ["fork:ok", "copies:ok", "flat:ok", "nd:ok", "real:ok"].iter().any(|k| ed.stats.get(k) > 0) {
        ed.stats.c("nontrivial");
    }
    *stats = std::mem::take(&mut ed.stats);
    if let Some(f) = fork {
        stats.merge(&f.ed.stats);
    }
    res
}

fn same<I: Ix>(m: &M<I>, s: &Snap) -> Option<String> {
    match snapshot::<I>(m) {
        Ok(n) => diff(s, &n),
        Err(e) => Some(e),
    }
}

fn step<I: Ix>(
    ed: &mut Editor<I>,
    fork: &mut Option<Fork<I>>,
    log: &mut Option<Vec<Req>>,
    saved_log: &mut Option<Vec<Req>>,
    st: &Step,
) -> Result<(), Violation> {
    let op = st.op.as_str();
    if op == "fork" {
        let m = &ed.mesh;
        let c = match call(|| m.clone()) {
            Res::Ok(c) => c,
            o => return viol("clone:failed", format!("clone of a sound mesh: {}", o.name())),
        };
        if let Some(d) = same::<I>(&c, &ed.cur) {
            return viol("clone:differs", format!("the clone differs from its original: {d}"));
        }
        if let Some(d) = same::<I>(&ed.mesh, &ed.cur) {
            return viol("clone:changed-original", d);
        }
        let mut e2 = Editor::<I>::new(1, Want::default());
        e2.cur = ed.cur.clone();
        e2.leaks = ed.leaks;
        e2.max_edges = ed.max_edges;
        // the copy may be the one that goes on as the main mesh
        e2.mesh = if st.arg(0) % 2 == 0 { c } else { std::mem::replace(&mut ed.mesh, c) };
        *fork = Some(Fork { ed: e2, sync: true });
        ed.stats.c("fork:ok");
        return Ok(());
    }
    if let Some(k) = op.strip_prefix("fork-") {
        let Some(f) = fork else { return Ok(()) };
        if f.ed.dead {
            return Ok(());
        }
        let s = Step::new(&format!("do-{k}"), &st.a);
        f.ed.step(&s)?;
        f.sync = false;
        ed.stats.c("isolation-checks");
        if let Some(d) = same::<I>(&ed.mesh, &ed.cur) {
            return viol("clone:not-isolated", format!("editing a copy ({}) changed the other mesh: {d}", f.ed.last));
        }
        return Ok(());
    }
    if let Some(k) = op.strip_prefix("both-") {
        let Some(f) = fork else { return Ok(()) };
        if f.ed.dead || !f.sync {
            return Ok(());
        }
        let Some(req) = build_req(k, &st.a, &ed.cur) else { return Ok(()) };
        ed.deliver(&req, None, 0, 0)?;
        f.ed.deliver(&req, None, 0, 0)?;
        if ed.dead || f.ed.dead {
            return Ok(());
        }
        ed.stats.c("lockstep-edits");
        if let Some(d) = diff(&ed.cur, &f.ed.cur) {
            return viol(
                "clone:behaves-differently",
                format!("the same request on a mesh and on its untouched clone ({req:?}): {d}"),
            );
        }
        return Ok(());
    }
    match op {
        "copies" => return copies(ed, st),
        "flat" => return flat(ed, st),
        "nd" | "real" => return real(ed, log, st),
        _ => {}
    }
    let before = ed.cur.clone();
    let aborted = ed.stats.get("aborted-by-fault");
    ed.step(st)?;
    match op {
        "build" => *log = None,
        "save" => *saved_log = log.clone(),
        "crash" => *log = if ed.saved.is_some() { saved_log.clone() } else { Some(vec![]) },
        _ => {}
    }
    let new = ed.log.replace(vec![]).unwrap_or_default();
    if ed.stats.get("aborted-by-fault") != aborted {
        *log = None;
    }
    if let Some(l) = log {
        l.extend(new);
    }
    if let Some(f) = fork {
        if !f.ed.dead {
            if ed.cur.hash() != before.hash() || op == "crash" {
                f.sync = false;
            }
            ed.stats.c("isolation-checks");
            if let Some(d) = same::<I>(&f.ed.mesh, &f.ed.cur) {
                return viol("clone:not-isolated", format!("editing a mesh ({}) changed its copy: {d}", ed.last));
            }
        }
        // whether a refused or skipped request used up ids is not visible: no lock-step after it
        if op.starts_with("do-") || op == "deliver" {
            f.sync = false;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- whole-mesh copies

fn copies<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let q = |k: u64| (k % 17) as f64 / 2.0 - 4.0;
    let (x, y) = (st.arg(0), st.arg(1));
    let tf = match st.arg(2) % 4 {
        0 => Tf::Translate([q(x), q(y), q(x + y)]),
        1 => Tf::Scale([q(x) + 5.0, q(y) + 5.0, 1.5]),
        2 => Tf::RotZ(q(x) * 0.3 + 0.1),
        _ => Tf::Affine([q(x) + 5.0, 0.5, 2.0], [q(y), 1.0, q(x)]),
    };
    let m = &ed.mesh;
    let t = match call(|| match &tf {
        Tf::Translate(a) => m.translated(&V3::new(a[0], a[1], a[2])),
        Tf::Scale(a) => m.scaled(&V3::new(a[0], a[1], a[2])),
        Tf::RotZ(a) => m.rotated(&NdRotate::from_axis_angle(V3::z_axis(), *a)),
        Tf::Affine(..) => m.transformed(&tf_aff(&tf)),
    }) {
        Res::Ok(t) => t,
        o => return viol("transformed:failed", format!("{tf:?}: {}", o.name())),
    };
    if let Some(d) = same::<I>(&t, &transform_snap(&ed.cur, &tf_aff(&tf))) {
        return viol("transformed:differs", format!("{tf:?}: {d}"));
    }
    let fl = match call(|| m.flipped()) {
        Res::Ok(t) => t,
        o => return viol("flipped:failed", o.name()),
    };
    let ps: Vec<(usize, usize)> =
        ed.cur.e.iter().filter(|(i, e)| **i < e.twin).map(|(i, e)| (*i, e.twin)).collect();
    if let Some(d) = same::<I>(&fl, &flip_pairs(&ed.cur, &ps)) {
        return viol("flipped:differs", d);
    }
    match call(|| fl.flipped()) {
        Res::Ok(t) => {
            if let Some(d) = same::<I>(&t, &ed.cur) {
                return viol("flipped:twice", d);
            }
        }
        o => return viol("flipped:failed", o.name()),
    }
    if let Some(d) = same::<I>(&ed.mesh, &ed.cur) {
        return viol("copies:changed-original", d);
    }
    ed.stats.c("copies:ok");
    Ok(())
}

// ---------------------------------------------------------------- curves

/// A point of the plane or of space.
type P = [f64; 3];
pub(crate) fn dist(a: P, b: P) -> f64 {
    (0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt()
}
fn p3(v: &V3) -> P {
    [v[0], v[1], v[2]]
}
pub(crate) fn at(c: &Curve, a: P, b: P, t: f64) -> P {
    let s = 1.0 - t;
    let mut r = [0.0; 3];
    for k in 0..3 {
        r[k] = match c {
            Curve::Lin => a[k] * s + b[k] * t,
            Curve::Quad(q) => a[k] * s * s + q[k] * 2.0 * s * t + b[k] * t * t,
            Curve::Cubic(q, w) => {
                a[k] * s * s * s + q[k] * 3.0 * s * s * t + w[k] * 3.0 * s * t * t + b[k] * t * t * t
            }
        };
    }
    r
}
fn seg_dist(p: P, a: P, b: P) -> f64 {
    let d: Vec<f64> = (0..3).map(|k| b[k] - a[k]).collect();
    let l: f64 = d.iter().map(|x| x * x).sum();
    let t = if l == 0.0 {
        0.0
    } else {
        ((0..3).map(|k| (p[k] - a[k]) * d[k]).sum::<f64>() / l).clamp(0.0, 1.0)
    };
    dist(p, [a[0] + d[0] * t, a[1] + d[1] * t, a[2] + d[2] * t])
}

/// The parameters at which the curve passes through p (to within eps).
fn params(c: &Curve, a: P, b: P, p: P, eps: f64) -> Vec<f64> {
    let n = 512;
    let f = |t: f64| dist(at(c, a, b, t), p);
    let d: Vec<f64> = (0..=n).map(|i| f(i as f64 / n as f64)).collect();
    let mut out: Vec<f64> = vec![];
    for i in 0..=n {
        let l = if i > 0 { d[i - 1] } else { f64::MAX };
        let r = if i < n { d[i + 1] } else { f64::MAX };
        if d[i] <= l && d[i] <= r {
            let (mut lo, mut hi) = ((i as f64 - 1.0).max(0.0) / n as f64, (i as f64 + 1.0).min(n as f64) / n as f64);
            for _ in 0..80 {
                let (x, y) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
                if f(x) <= f(y) {
                    hi = y
                } else {
                    lo = x
                }
            }
            let t = (lo + hi) / 2.0;
            if f(t) < eps {
                out.push(t);
            }
        }
    }
    out
}

/// Whether the polyline a, ps.., b follows the curve in order and stays within `tol` of it.
fn follows(c: &Curve, a: P, b: P, ps: &[P], tol: f64) -> Result<(), String> {
    let size = [a, b].iter().chain(ps.iter()).flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    let eps = 1e-6 * size;
    let cand: Vec<Vec<f64>> = ps.iter().map(|p| params(c, a, b, *p, eps)).collect();
    if let Some(i) = cand.iter().position(|x| x.is_empty()) {
        return Err(format!("point {i} {:?} does not lie on the curve", ps[i]));
    }
    let piece = |t0: f64, t1: f64, p: P, q: P| -> f64 {
        (1..32)
            .map(|k| seg_dist(at(c, a, b, t0 + (t1 - t0) * k as f64 / 32.0), p, q))
            .fold(0.0, f64::max)
    };
    // follow all ways of ordering the points along the curve
    let mut best: Vec<(f64, f64)> = vec![(0.0, 0.0)]; // (parameter, worst deviation so far)
    let mut prev = a;
    for (i, ts) in cand.iter().enumerate() {
        let mut nb: Vec<(f64, f64)> = vec![];
        for t in ts {
            for (t0, w) in &best {
                if *t >= t0 - 1e-9 {
                    nb.push((*t, w.max(piece(*t0, *t, prev, ps[i]))));
                }
            }
        }
        if nb.is_empty() {
            return Err(format!("point {i} {:?} is out of order along the curve", ps[i]));
        }
        nb.sort_by(|x, y| x.1.total_cmp(&y.1));
        nb.truncate(8);
        best = nb;
        prev = ps[i];
    }
    let dev = best.iter().map(|(t0, w)| w.max(piece(*t0, 1.0, prev, b))).fold(f64::MAX, f64::min);
    // a segment is accepted when the curve is within tol of it at the sampled parameters
    if dev > 1.15 * tol + eps {
        return Err(format!("the polyline ({} points) is {dev:.4} away from the curve, tolerance {tol}", ps.len()));
    }
    Ok(())
}

pub(crate) fn draw_curves(s: &Snap, seed: u64, n: u64, flat2d: bool) -> BTreeMap<usize, Curve> {
    let mut r = Rng::new(mix2(seed, 77));
    let mut out = BTreeMap::new();
    let es: Vec<usize> = s.e.keys().copied().collect();
    if es.is_empty() {
        return out;
    }
    for _ in 0..n {
        let e = *r.pick(&es);
        if out.contains_key(&e) || out.contains_key(&s.e[&e].twin) {
            continue;
        }
        let (a, b) = (s.v[&s.e[&e].origin].p.pos, s.v[&s.target(e)].p.pos);
        let mut c = |r: &mut Rng| {
            let z = if flat2d { 0.0 } else { r.range(-20, 20) as f64 / 2.0 };
            V3::new(r.range(-20, 20) as f64 / 2.0, r.range(-20, 20) as f64 / 2.0, z)
        };
        let curve = match r.below(6) {
            0 | 1 => Curve::Quad(c(&mut r)),
            2 | 3 => Curve::Cubic(c(&mut r), c(&mut r)),
            // an S: the control points mirrored at the middle of the chord
            4 => {
                let k = c(&mut r);
                Curve::Cubic(k, a + b - k)
            }
            // straight after all
            _ => Curve::Quad((a + b) * 0.5),
        };
        out.insert(e, curve);
    }
    out
}

/// `after` is `before` with some edges subdivided; returns for each half-edge of `before` the new
/// vertices along it from its origin to its target.
fn subdivided(before: &Snap, after: &Snap, same_payload: bool) -> Result<BTreeMap<usize, Vec<usize>>, String> {
    integrity(after)?;
    for (i, v) in &before.v {
        match after.v.get(i) {
            Some(w) if w.p.bits() == v.p.bits() => {}
            _ => return Err(format!("vertex {i} vanished or its payload changed")),
        }
    }
    if before.f.len() != after.f.len() {
        return Err("number of faces changed".into());
    }
    for (i, f) in &before.f {
        match after.f.get(i) {
            Some(g) if g.p == f.p && g.curved == f.curved => {}
            _ => return Err(format!("face {i} vanished or its payload changed")),
        }
    }
    if before.mp != after.mp {
        return Err("mesh payload changed".into());
    }
    let new = |v: usize| !before.v.contains_key(&v);
    let mut chain_of: BTreeMap<usize, usize> = BTreeMap::new();
    let mut out = BTreeMap::new();
    let mut chains: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, e) in &before.e {
        let Some(x) = after.e.get(i) else { return Err(format!("half-edge {i} vanished")) };
        if same_payload && x.p.tag != e.p.tag {
            return Err(format!("half-edge {i}: payload changed"));
        }
        let mut c = vec![*i];
        for _ in 0..after.e.len() {
            if !new(after.e[&c[0]].origin) {
                break;
            }
            c.insert(0, after.e[&c[0]].prev);
        }
        for _ in 0..after.e.len() {
            let l = *c.last().unwrap();
            if !new(after.target(l)) {
                break;
            }
            c.push(after.e[&l].next);
        }
        for h in &c {
            if chain_of.insert(*h, *i).is_some() {
                return Err(format!("half-edge {h} lies on two of the former half-edges"));
            }
            if after.e[h].face != e.face {
                return Err(format!("half-edge {h}: face differs from that of {i}"));
            }
        }
        if after.e[&c[0]].origin != e.origin || after.target(*c.last().unwrap()) != before.target(*i) {
            return Err(format!("half-edge {i}: its ends changed"));
        }
        let vs: Vec<usize> = c[1..].iter().map(|h| after.e[h].origin).collect();
        for v in &vs {
            if after.degree(*v) != 2 {
                return Err(format!("inserted vertex {v} has degree {}", after.degree(*v)));
            }
        }
        out.insert(*i, vs);
        chains.insert(*i, c);
    }
    if chain_of.len() != after.e.len() {
        return Err("there are half-edges that belong to none of the former ones".into());
    }
    let used: usize = out.values().map(|v| v.len()).sum::<usize>() / 2;
    if after.v.len() != before.v.len() + used {
        return Err("there are new vertices off the former edges".into());
    }
    for (i, e) in &before.e {
        let c = &chains[i];
        let nx = after.e[c.last().unwrap()].next;
        if chain_of.get(&nx) != Some(&e.next) {
            return Err(format!("half-edge {i}: what follows it changed"));
        }
        let tw: Vec<usize> = c.iter().rev().map(|h| after.e[h].twin).collect();
        if chains[&e.twin] != tw {
            return Err(format!("half-edge {i}: its twin is subdivided differently"));
        }
    }
    Ok(out)
}

fn flat_check(before: &Snap, after: &Snap, curves: &BTreeMap<usize, Curve>, tol: f64) -> Result<u64, String> {
    let ch = subdivided(before, after, true)?;
    let mut n = 0;
    for (i, vs) in &ch {
        let c = curves.get(i);
        if after.e[i].p.curve != Curve::Lin {
            return Err(format!("half-edge {i} is still curved"));
        }
        if c.is_none() && !curves.contains_key(&before.e[i].twin) && !vs.is_empty() {
            return Err(format!("straight half-edge {i} was subdivided"));
        }
        if let Some(c) = c {
            let ps: Vec<P> = vs.iter().map(|v| p3(&after.v[v].p.pos)).collect();
            let (a, b) = (p3(&before.v[&before.e[i].origin].p.pos), p3(&before.v[&before.target(*i)].p.pos));
            follows(c, a, b, &ps, tol).map_err(|m| format!("half-edge {i} ({c:?} from {a:?} to {b:?}): {m}"))?;
            n += 1;
        }
    }
    if after.e.values().any(|e| e.p.curve != Curve::Lin) {
        return Err("a new edge is curved".into());
    }
    Ok(n)
}

fn flat<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let curves = draw_curves(&ed.cur, st.arg(0), 1 + st.arg(1) % 12, false);
    let tol = [0.02, 0.1, 0.5, 2.0, 6.0][(st.arg(2) % 5) as usize];
    let orig = &ed.mesh;
    let Res::Ok(mut m) = call(|| orig.clone()) else { return Ok(()) };
    for (e, c) in &curves {
        let ct = match c {
            Curve::Lin => CurvedEdgeType::Linear,
            Curve::Quad(a) => CurvedEdgeType::QuadraticBezier(*a),
            Curve::Cubic(a, b) => CurvedEdgeType::CubicBezier(*a, *b),
        };
        m.edge_mut(mk::<I>(*e)).set_curve_type(ct);
    }
    let Ok(before) = snapshot::<I>(&m) else { return Ok(()) };
    let fault = st.arg(4).checked_sub(1);
    if let Some(k) = fault {
        arm(k);
    }
    let r = call(|| {
        m.flatten_curved_edges(tol);
    });
    if fault.is_some() {
        disarm();
    }
    let after = match snapshot::<I>(&m) {
        Ok(s) => s,
        Err(e) => return viol("flat:unreadable", e),
    };
    match r {
        Res::Ok(()) => {
            match flat_check(&before, &after, &curves, tol) {
                Ok(n) => ed.stats.add("curves-flattened", n),
                Err(e) => return viol(format!("flat:{}", class(&e)), format!("tol {tol}: {e}")),
            }
            if let Err(e) = api_agreement::<I>(&m, &after, st.arg(0)) {
                return viol(format!("flat:api:{}", class(&e)), e);
            }
            ed.stats.add("flat:vertices", (after.v.len() - before.v.len()) as u64);
            ed.stats.c("flat:ok");
        }
        Res::Injected => {
            ed.stats.c("flat:aborted-by-fault");
            if let Err(e) = subdivided(&before, &after, true) {
                return viol(format!("flat:abort:{}", class(&e)), format!("fault {fault:?} while flattening: {e}"));
            }
        }
        // the index type has run out
        Res::Panic(_) if I::CAP < 1000 => {
            ed.stats.c("flat:exhausted");
            if let Err(e) = subdivided(&before, &after, true) {
                return viol(format!("flat:abort:{}", class(&e)), format!("ids ran out while flattening: {e}"));
            }
        }
        o => return viol("flat:failed", format!("flattening {curves:?} with tolerance {tol}: {o:?}")),
    }
    if let Some(d) = same::<I>(&ed.mesh, &ed.cur) {
        return viol("flat:changed-original", d);
    }
    Ok(())
}

// ---------------------------------------------------------------- the crate's own mesh types

macro_rules! topo {
    ($m:expr, $vp:expr, $ep:expr) => {{
        let m = $m;
        let id = |i: usize| if i == <usize as IndexType>::max() { NONE } else { i };
        let mut s = Snap::default();
        for v in m.vertices() {
            s.v.insert(v.id(), SV { edge: id(v.edge_id(m)), p: $vp(v.payload()) });
        }
        for e in m.edges() {
            let se = SE {
                next: id(e.next_id()),
                prev: id(e.prev_id()),
                twin: id(e.twin_id()),
                origin: id(e.origin_id()),
                face: id(e.face_id()),
                p: EPd { tag: 0, curve: $ep(e) },
            };
            s.e.insert(e.id(), se);
        }
        for f in m.faces() {
            s.f.insert(f.id(), SF { edge: id(f.edge_id()), curved: false, p: FPd { tag: 0 } });
        }
        s
    }};
}

pub(crate) type C2 = CurvedEdgeType<2, MeshType2d64PNUCurved>;
pub(crate) fn up(v: VecN<f64, 2>) -> V3 {
    V3::new(v[0], v[1], 0.0)
}
pub(crate) fn down(v: V3) -> VecN<f64, 2> {
    VecN::<f64, 2>::new(v[0], v[1])
}
pub(crate) fn topo2(m: &Mesh2d64Curved) -> Result<Snap, String> {
    let r = call(|| {
        topo!(
            m,
            |p: &VertexPayloadPNU<f64, 2>| VPd::new(0, up(*HasPosition::<2, _>::pos(p))),
            |e: &HalfEdgeImpl2| match CurvedEdge::curve_type(e) {
                C2::Linear => Curve::Lin,
                C2::QuadraticBezier(a) => Curve::Quad(up(a)),
                C2::CubicBezier(a, b) => Curve::Cubic(up(a), up(b)),
            }
        )
    });
    match r {
        Res::Ok(s) => Ok(s),
        o => Err(format!("reading a Mesh2d64Curved failed: {o:?}")),
    }
}
type HalfEdgeImpl2 = procedural_modelling::halfedge::HalfEdgeImpl<MeshType2d64PNUCurved>;

fn topo_nd<const D: usize>(m: &MeshNd64<D>) -> Result<Snap, String> {
    let mut bad = false;
    let r = call(|| {
        topo!(
            m,
            |p: &VertexPayloadPNU<f64, D>| {
                let q = HasPosition::<D, _>::pos(p);
                bad |= (2..D).any(|k| q[k] != 0.0);
                VPd::new(0, V3::new(q[0], q[1], 0.0))
            },
            |_| Curve::Lin
        )
    });
    match r {
        Res::Ok(_) if bad => Err("a coordinate beyond the plane is not zero".into()),
        Res::Ok(s) => Ok(s),
        o => Err(format!("reading the converted mesh failed: {o:?}")),
    }
}

/// Replays requests on the crate's own curved 2D mesh; refused ones are refused there as well.
pub(crate) fn perform2(m: &mut Mesh2d64Curved, r: &Req) {
    let id = |i: usize| if i == NONE { <usize as IndexType>::max() } else { i };
    let vp = |p: &VPd| VertexPayloadPNU::<f64, 2>::from_pos(down(p.pos));
    let ep = CurvedEdgePayload::<2, MeshType2d64PNUCurved>::default;
    let fp = EmptyFacePayload::<MeshType2d64PNUCurved>::default;
    match r {
        Req::AddVertex { vp: a } => {
            m.add_vertex(vp(a));
        }
        Req::AddIso { a, b, .. } => {
            m.add_isolated_edge_default(vp(a), vp(b));
        }
        Req::ViaVertex { v, vp: a, .. } => {
            m.add_vertex_via_vertex_default(id(*v), vp(a));
        }
        Req::ViaEdge { input, output, vp: a, .. } => {
            m.add_vertex_via_edge_default(id(*input), id(*output), vp(a));
        }
        Req::Between { v0, v1, .. } => {
            m.insert_edge_between(id(*v0), ep(), id(*v1), ep());
        }
        Req::InsertEdge { inside, outside, .. } => {
            m.insert_edge(id(*inside), ep(), id(*outside), ep());
        }
        Req::CloseFace { inside, outside, curved, .. } => {
            m.close_face(id(*inside), ep(), id(*outside), ep(), fp(), *curved);
        }
        Req::CloseFaceV { prev, from, to, curved, .. } => {
            m.close_face_vertices(id(*prev), ep(), id(*from), ep(), id(*to), fp(), *curved);
        }
        Req::CloseHole { e, curved, .. } => {
            m.close_hole(id(*e), fp(), *curved);
        }
        Req::RemoveFace { f } => {
            m.remove_face(id(*f));
        }
        Req::SplitEdge { e, items } => {
            m.insert_vertices_into_edge(id(*e), items.iter().map(|(_, _, p)| (ep(), ep(), vp(p))));
        }
        Req::Path { vps } => {
            MeshBuilder::insert_path(m, vps.iter().map(vp));
        }
        Req::Loop { vps } => {
            m.insert_loop(vps.iter().map(vp));
        }
        Req::Polygon { vps } => {
            m.insert_polygon(vps.iter().map(vp));
        }
        Req::Dihedron { vps } => {
            m.insert_dihedron(vps.iter().map(vp));
        }
        Req::FlipEdge { e } => {
            m.flip_edge(id(*e));
        }
        Req::Flip => {
            m.flip();
        }
        Req::Clear => {
            m.clear();
        }
        Req::Transform(t) => {
            m.transform(&aff2(t));
        }
        Req::SetPayload { .. } => {}
    }
}

fn aff2(t: &Tf) -> NdAffine<f64, 2> {
    let v = |a: &[f64; 3]| VecN::<f64, 2>::new(a[0], a[1]);
    match t {
        Tf::Translate(a) => NdAffine::from_translation(v(a)),
        Tf::Scale(a) => NdAffine::from_scale(v(a)),
        Tf::RotZ(a) => NdAffine::from_rotation(NdRotate::from_angle(*a)),
        Tf::Affine(a, b) => NdAffine::from_scale(v(a)).with_translation(v(b)),
    }
}

/// Whether two rotation systems with positions and curves are the same up to renaming.
fn isomorphic(a: &Snap, b: &Snap) -> Result<(), String> {
    if (a.v.len(), a.e.len(), a.f.len()) != (b.v.len(), b.e.len(), b.f.len()) {
        return Err(format!(
            "vertices, half-edges, faces: {:?} became {:?}",
            (a.v.len(), a.e.len(), a.f.len()),
            (b.v.len(), b.e.len(), b.f.len())
        ));
    }
    let vk = |s: &Snap, v: usize| s.v[&v].p.bits();
    let iso = |s: &Snap| {
        let mut x: Vec<[u64; 9]> =
            s.v.iter().filter(|(_, v)| v.edge == NONE).map(|(i, _)| vk(s, *i)).collect();
        x.sort();
        x
    };
    if iso(a) != iso(b) {
        return Err("isolated vertices differ".into());
    }
    let mut me: BTreeMap<usize, usize> = BTreeMap::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let mut mv: BTreeMap<usize, usize> = BTreeMap::new();
    let mut mf: BTreeMap<usize, usize> = BTreeMap::new();
    for root in a.e.keys() {
        if me.contains_key(root) {
            continue;
        }
        let mut found = false;
        for cand in b.e.keys().filter(|c| !used.contains(c)) {
            let mut le: BTreeMap<usize, usize> = BTreeMap::new();
            let (mut lv, mut lf) = (mv.clone(), mf.clone());
            let mut todo = vec![(*root, *cand)];
            let mut ok = true;
            while let Some((x, y)) = todo.pop() {
                if let Some(z) = le.get(&x) {
                    if *z != y {
                        ok = false;
                        break;
                    }
                    continue;
                }
                let (p, q) = (&a.e[&x], &b.e[&y]);
                if vk(a, p.origin) != vk(b, q.origin)
                    || p.p.curve != q.p.curve
                    || (p.face == NONE) != (q.face == NONE)
                    || *lv.entry(p.origin).or_insert(q.origin) != q.origin
                    || *lf.entry(p.face).or_insert(q.face) != q.face
                {
                    ok = false;
                    break;
                }
                le.insert(x, y);
                todo.push((p.next, q.next));
                todo.push((p.prev, q.prev));
                todo.push((p.twin, q.twin));
            }
            if ok {
                used.extend(le.values().copied());
                me.extend(le);
                mv = lv;
                mf = lf;
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!("nothing corresponds to the component of half-edge {root}"));
        }
    }
    let inj = |m: &BTreeMap<usize, usize>| m.values().collect::<BTreeSet<_>>().len() == m.len();
    if inj(&me) && inj(&mv) && inj(&mf) {
        Ok(())
    } else {
        Err("the correspondence is not one to one".into())
    }
}

fn consecutive<'a>(m: impl Iterator<Item = &'a usize>) -> bool {
    m.enumerate().all(|(i, k)| i == *k)
}

fn nd_check<const D: usize>(m: &Mesh2d64Curved, flat: &Snap, tol: f64) -> Result<(), String> {
    let nd = match call(|| m.to_nd::<D>(tol)) {
        Res::Ok(x) => x,
        o => return Err(format!("failed: {o:?}")),
    };
    let s = topo_nd::<D>(&nd)?;
    integrity(&s)?;
    isomorphic(flat, &s)?;
    if !consecutive(s.v.keys()) || !consecutive(s.e.keys()) || !consecutive(s.f.keys()) {
        return Err("the ids of the new mesh are not consecutive".into());
    }
    if check_applies(&s) && !s.e.is_empty() {
        if let Res::Ok(Err(e)) = call(|| nd.check()) {
            return Err(format!("check() of the result: {e}"));
        }
    }
    Ok(())
}

fn real<I: Ix>(ed: &mut Editor<I>, log: &Option<Vec<Req>>, st: &Step) -> Result<(), Violation> {
    let Some(log) = log else { return Ok(()) };
    let mut m = Mesh2d64Curved::default();
    for r in log {
        if let Res::Budget = call(|| perform2(&mut m, r)) {
            return Ok(());
        }
    }
    let Ok(plain) = topo2(&m) else { return Ok(()) };
    if integrity(&plain).is_err() {
        ed.stats.c("real:malformed-input");
        return Ok(());
    }
    let curves = draw_curves(&plain, st.arg(0), st.arg(1) % 9, true);
    let set = |m: &mut Mesh2d64Curved| {
        for (e, c) in &curves {
            let ct = match c {
                Curve::Lin => C2::Linear,
                Curve::Quad(a) => C2::QuadraticBezier(down(*a)),
                Curve::Cubic(a, b) => C2::CubicBezier(down(*a), down(*b)),
            };
            CurvedEdge::set_curve_type(m.edge_mut(*e), ct);
        }
    };
    set(&mut m);
    let Ok(before) = topo2(&m) else { return Ok(()) };
    ed.stats.state(before.shape_hash());
    if st.op == "real" {
        return real_copies(ed, st, &m, &before);
    }
    let tol = [0.02, 0.1, 0.5, 2.0, 6.0][(st.arg(2) % 5) as usize];
    let mut fl = m.clone();
    match call(|| {
        fl.flatten_curved_edges(tol);
    }) {
        Res::Ok(()) => {}
        o => return viol("flat2d:failed", format!("{curves:?}: {o:?}")),
    }
    let flat = match topo2(&fl) {
        Ok(s) => s,
        Err(e) => return viol("flat2d:unreadable", e),
    };
    match flat_check(&before, &flat, &curves, tol) {
        Ok(n) => ed.stats.add("curves-flattened", n),
        Err(e) => return viol(format!("flat2d:{}", class(&e)), format!("tol {tol}: {e}")),
    }
    let r = match st.arg(3) % 4 {
        0 => nd_check::<2>(&m, &flat, tol),
        1 => nd_check::<4>(&m, &flat, tol),
        _ => nd_check::<3>(&m, &flat, tol),
    };
    if let Err(e) = r {
        return viol(format!("to_nd:{}", class(&e)), format!("to_nd of a Mesh2d64Curved: {e}"));
    }
    match topo2(&m) {
        Ok(s) if diff(&before, &s).is_none() => {}
        _ => return viol("to_nd:changed-original", "to_nd changed its receiver"),
    }
    if plain.v.values().any(|v| v.edge == NONE) {
        ed.stats.c("nd:isolated-vertices");
    }
    ed.stats.c("nd:ok");
    Ok(())
}

/// Transformed and flipped copies of the crate's own curved 2D mesh.
fn real_copies<I: Ix>(ed: &mut Editor<I>, st: &Step, m: &Mesh2d64Curved, before: &Snap) -> Result<(), Violation> {
    let q = |k: u64| (k % 17) as f64 / 2.0 - 4.0;
    let (x, y) = (st.arg(2), st.arg(3));
    let tf = match st.arg(4) % 4 {
        0 => Tf::Translate([q(x), q(y), 0.0]),
        1 => Tf::Scale([q(x) + 5.0, q(y) + 5.0, 1.0]),
        2 => Tf::RotZ(q(x) * 0.3 + 0.1),
        _ => Tf::Affine([q(x) + 5.0, 0.5, 1.0], [q(y), 1.0, 0.0]),
    };
    let v = |a: &[f64; 3]| VecN::<f64, 2>::new(a[0], a[1]);
    let c = match call(|| match &tf {
        Tf::Translate(a) => m.translated(&v(a)),
        Tf::Scale(a) => m.scaled(&v(a)),
        Tf::RotZ(a) => m.rotated(&NdRotate::from_angle(*a)),
        Tf::Affine(..) => m.transformed(&aff2(&tf)),
    }) {
        Res::Ok(c) => c,
        o => return viol("transformed2d:failed", format!("{tf:?}: {o:?}")),
    };
    let got = match topo2(&c) {
        Ok(s) => s,
        Err(e) => return viol("transformed2d:unreadable", e),
    };
    let f = |p: V3| -> V3 {
        match &tf {
            Tf::Translate(a) => V3::new(p[0] + a[0], p[1] + a[1], 0.0),
            Tf::Scale(a) => V3::new(p[0] * a[0], p[1] * a[1], 0.0),
            Tf::RotZ(a) => V3::new(p[0] * a.cos() - p[1] * a.sin(), p[0] * a.sin() + p[1] * a.cos(), 0.0),
            Tf::Affine(a, b) => V3::new(p[0] * a[0] + b[0], p[1] * a[1] + b[1], 0.0),
        }
    };
    let mut exp = before.clone();
    for v in exp.v.values_mut() {
        v.p.pos = f(v.p.pos);
    }
    for e in exp.e.values_mut() {
        e.p.curve = match e.p.curve {
            Curve::Lin => Curve::Lin,
            Curve::Quad(a) => Curve::Quad(f(a)),
            Curve::Cubic(a, b) => Curve::Cubic(f(a), f(b)),
        };
    }
    if let Some(e) = close(&exp, &got) {
        return viol(format!("transformed2d:{}", class(&e)), format!("{tf:?}: {e}"));
    }
    let twice = call(|| (m.flipped(), m.flipped().flipped()));
    let Res::Ok((once, twice)) = twice else {
        return viol("flipped2d:failed", format!("{twice:?}"));
    };
    let ps: Vec<(usize, usize)> =
        before.e.iter().filter(|(i, e)| **i < e.twin).map(|(i, e)| (*i, e.twin)).collect();
    let (once, twice) = (topo2(&once), topo2(&twice));
    let as_is = |key: &str, exp: &Snap, got: Result<Snap, String>| match got.as_ref().map(|g| diff(exp, g)) {
        Ok(None) => Ok(()),
        Ok(Some(d)) => viol(key, d),
        Err(e) => viol(key, e),
    };
    as_is("flipped2d:differs", &flip_pairs(before, &ps), once)?;
    as_is("flipped2d:twice", before, twice)?;
    as_is("copies2d:changed-original", before, topo2(m))?;
    ed.stats.c("real:ok");
    Ok(())
}

/// Equal up to rounding of positions and control points.
fn close(a: &Snap, b: &Snap) -> Option<String> {
    let mut c = b.clone();
    let near = |p: &V3, q: &V3| (p - q).norm() < 1e-9 * (1.0 + p.norm());
    for (i, v) in c.v.iter_mut() {
        if let Some(w) = a.v.get(i) {
            if !near(&w.p.pos, &v.p.pos) {
                return Some(format!("vertex {i} at {:?}, expected {:?}", v.p.pos, w.p.pos));
            }
            v.p = w.p;
        }
    }
    for (i, e) in c.e.iter_mut() {
        if let Some(x) = a.e.get(i) {
            let ok = match (&x.p.curve, &e.p.curve) {
                (Curve::Lin, Curve::Lin) => true,
                (Curve::Quad(p), Curve::Quad(q)) => near(p, q),
                (Curve::Cubic(p, r), Curve::Cubic(q, s)) => near(p, q) && near(r, s),
                _ => false,
            };
            if !ok {
                return Some(format!("half-edge {i}: control points {:?}, expected {:?}", e.p.curve, x.p.curve));
            }
            e.p = x.p;
        }
    }
    diff(a, &c)
}
