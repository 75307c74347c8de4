//! C12: outlines drawn with the path builder, imported from SVG, or laid out from a font.

use super::conv::{perform2, topo2};
use super::*;
use crate::by_index;
use crate::env::*;
use crate::model::*;
use crate::snap::*;
use crate::ttf;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::extensions::svg::*;
use procedural_modelling::mesh::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    let mode = idx % 4;
    sc.set("it", if mode == 2 { 0 } else { [0, 1, 2, 0][(idx / 4 % 4) as usize] });
    let len = r.below(18);
    let faults = r.chance(1, 6) && mode != 2;
    gen_history(r, sc, len, faults, 3);
    super::edit::fill(r, sc);
    match mode {
        2 => {
            sc.steps.retain(|s| s.op != "build");
            for _ in 0..1 + r.below(3) {
                let mut a = args(r, 3);
                a.push([0, 0, 0, 0, 1, 2, 2, 3, 4][r.below(9)]);
                a.push(r.below(1000) as u64);
                sc.push("svg", &a);
            }
        }
        3 => {
            for _ in 0..1 + r.below(2) {
                let mut a = args(r, 4);
                a.push(if r.chance(1, 3) { 1 + r.below(60) as u64 } else { 0 });
                let at = r.below(sc.steps.len() + 1);
                sc.steps.insert(at, Step::new("text", &a));
            }
        }
        _ => {
            for _ in 0..1 + r.below(3) {
                let at = r.below(sc.steps.len() + 1);
                let mut s = vec![Step::new("pb-start", &pb_args(r, sc.p("it") as u64))];
                for _ in 0..1 + r.below(3) {
                    for _ in 0..r.below(7) {
                        let op = *r.pick(&["pb-line", "pb-line", "pb-lineex", "pb-quad", "pb-cubic", "pb-auto"]);
                        s.push(Step::new(op, &pb_args(r, 0)));
                        if r.chance(1, 8) {
                            let k = *r.pick(&KINDS);
                            let mut a = args(r, 3);
                            a.extend([r.below(4) as u64 * 2, 0]);
                            s.push(Step::new(&format!("do-{k}"), &a));
                        }
                    }
                    if r.chance(4, 5) {
                        s.push(Step::new("pb-close", &pb_args(r, 0)));
                    }
                    if r.chance(2, 3) {
                        s.push(Step::new("pb-move", &pb_args(r, 0)));
                    }
                }
                s.push(Step::new("pb-end", &[]));
                sc.steps.splice(at..at, s);
            }
        }
    }
}

/// position x y z, target, variant, fault
fn pb_args(r: &mut Rng, _it: u64) -> Vec<u64> {
    let mut a = args(r, 3);
    a.push(match r.below(12) {
        0..=7 => r.below(4) as u64,
        8 | 9 => 4,
        10 => 5 + 3 * r.below(2000) as u64,
        _ => r.below(9999) as u64,
    });
    a.push(r.below(9999) as u64);
    a.push(if r.chance(1, 25) { 1 + r.below(8) as u64 } else { 0 });
    a
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, Want::default());
    ed.log = Some(vec![]);
    let mut real: Option<Mesh2d64Curved> = None;
    let mut res = Ok(());
    let mut i = 0;
    while i < sc.steps.len() && res.is_ok() && !ed.dead {
        let st = &sc.steps[i];
        i += 1;
        res = match st.op.as_str() {
            "pb-start" => {
                let end = sc.steps[i..].iter().position(|s| s.op == "pb-end").map_or(sc.steps.len(), |k| i + k);
                let body = &sc.steps[i..end];
                i = end;
                session(&mut ed, st, body)
            }
            "svg" => svg(&mut ed, &mut real, st),
            "text" => text(&mut ed, st),
            _ => ed.step(st).map(|_| ()),
        };
        if ed.dead {
            ed.stats.c("runs-ended-by-foreign-violation");
        }
    }
    if ["pb:faces", "svg:subpaths", "text:contours"].iter().any(|k| ed.stats.get(k) > 0) {
        ed.stats.c("nontrivial");
    }
    *stats = std::mem::take(&mut ed.stats);
    res
}

// ------------------------------------------------------------------- the path builder

type Pb<'a, I> = PathBuilder<'a, MT<I>, Aff>;

/// What the caller may know about the builder's state.
struct Shadow {
    /// the path started at a vertex that had no edges
    fresh: bool,
    closed: bool,
    has_face: bool,
    start: usize,
    cur: usize,
    start_e: Option<(usize, usize)>,
    cur_e: Option<(usize, usize)>,
    drawn: Vec<usize>,
}

fn pos(st: &Step) -> V3 {
    let f = |k: usize| (st.arg(k) % 41) as f64 / 2.0 - 10.0;
    V3::new(f(0), f(1), f(2))
}

fn ctrl(st: &Step, k: u64) -> V3 {
    let mut r = Rng::new(st.arg(4) * 3 + k);
    let mut f = || r.below(81) as f64 / 4.0 - 10.0;
    V3::new(f(), f(), f())
}

fn ident(p: V3) -> V3 {
    use procedural_modelling::math::*;
    Aff::default().apply(p)
}

fn with_vertex(s: &Snap, vp: VPd) -> (Snap, usize) {
    match predict(s, &Req::AddVertex { vp }, usize::MAX) {
        Pred::Ok(n, Ret::V(v)) => (*n, v),
        _ => unreachable!(),
    }
}

fn fits<I: Ix>(s: &Snap) -> bool {
    s.v.len() <= I::CAP && s.e.len() <= I::CAP && s.f.len() <= I::CAP
}

fn matches(exp: &Snap, before: &Snap, after: &Snap) -> Result<(BTreeMap<usize, usize>, BTreeMap<usize, usize>, BTreeMap<usize, usize>), String> {
    let (e, mv, me, mf) = bind(exp, before, after)?;
    match diff(&e, after) {
        Some(d) => Err(d),
        None => Ok((mv, me, mf)),
    }
}

fn session<I: Ix>(ed: &mut Editor<I>, st: &Step, body: &[Step]) -> Result<(), Violation> {
    if ed.cur.e.len() > ed.max_edges && I::CAP > 1000 {
        return Ok(());
    }
    ed.log = None;
    let mut mesh = std::mem::take(&mut ed.mesh);
    let r = session_on(ed, &mut mesh, st, body);
    ed.mesh = mesh;
    if r.is_ok() && !ed.dead {
        // the log of requests no longer describes this mesh
        if let Ok(s) = snapshot::<I>(&ed.mesh) {
            ed.cur = s;
        }
    }
    r
}

/// One step of the outline: what may be true afterwards.
struct Plan {
    /// the mesh if the step succeeds (several where the builder is free to choose), or why it must not
    ok: Result<Vec<(Snap, Option<(usize, usize)>, Option<usize>)>, &'static str>,
    /// the meshes an aborted or refused step may leave
    cut: Vec<Snap>,
}

fn observe<I: Ix>(ed: &mut Editor<I>, m: &M<I>, what: &str) -> Result<Snap, Violation> {
    let after = match snapshot::<I>(m) {
        Ok(s) => s,
        Err(e) => return viol(format!("{what}:unreadable"), e),
    };
    if let Err(e) = integrity(&after) {
        return viol(format!("{what}:integrity:{}", class(&e)), e);
    }
    ed.stats.t(after.hash());
    ed.stats.state(after.shape_hash());
    Ok(after)
}

/// Ok(Some(k)): succeeded as planned (with alternative k); Ok(None): refused or aborted as planned.
fn judge<I: Ix, R>(ed: &mut Editor<I>, m: &M<I>, what: &str, plan: &Plan, res: &Res<R>, fired: bool) -> Result<Option<(usize, BTreeMap<usize, usize>, BTreeMap<usize, usize>, BTreeMap<usize, usize>)>, Violation> {
    ed.stats.c(&format!("{what}:{}", res.name()));
    let after = observe::<I>(ed, m, what)?;
    let before = std::mem::replace(&mut ed.cur, after.clone());
    match (&plan.ok, res) {
        (_, Res::Budget) => viol(format!("{what}:nontermination"), format!("{what} does not terminate")),
        (Ok(_), Res::Ok(_)) if fired => viol(format!("{what}:fault-swallowed"), "a panic of caller code did not propagate"),
        (Ok(alts), Res::Ok(_)) => {
            let mut why = String::new();
            for (k, a) in alts.iter().enumerate() {
                match matches(&a.0, &before, &after) {
                    Ok((mv, me, mf)) => return Ok(Some((k, mv, me, mf))),
                    Err(e) if why.is_empty() => why = e,
                    Err(_) => {}
                }
            }
            viol(format!("{what}:effect:{}", class(&why)), why)
        }
        (Err(why), Res::Ok(_)) => viol(format!("{what}:accepted:{why}"), format!("{what} succeeded although {why}")),
        (o, Res::Injected | Res::Panic(_)) => {
            let leaked = ed.leaks > 0 && I::CAP < 1000 && before.v.len().max(before.e.len()).max(before.f.len()) + ed.leaks + 4 > I::CAP;
            if let (Ok(alts), Res::Panic(m)) = (o, res) {
                if !leaked && alts.iter().any(|a| fits::<I>(&a.0)) {
                    return viol(format!("{what}:valid-panicked"), format!("{what} panicked: {m}"));
                }
            }
            if let Err(w) = o {
                ed.stats.c(&format!("{what}:refused:{w}"));
            }
            ed.leaks += 4;
            if diff(&before, &after).is_none() {
                return Ok(None);
            }
            let mut why = "unexpected remains".to_string();
            for c in &plan.cut {
                match matches(c, &before, &after) {
                    Ok(_) => return Ok(None),
                    Err(e) => why = e,
                }
            }
            viol(format!("{what}:remains:{}", class(&why)), format!("{what} ended by {} but left more than the segments drawn before: {why}", res.name()))
        }
    }
}

/// The segment from the current vertex to `v`.
fn seg(s: &Snap, sh: &Shadow, v: usize, ep: (EPd, EPd)) -> Result<(Snap, (usize, usize)), &'static str> {
    if sh.closed {
        return Err("the path is closed");
    }
    if sh.cur == NONE {
        return Err("the path has no start");
    }
    if v == sh.cur {
        return Err("the segment has no second vertex");
    }
    match predict(s, &Req::Between { v0: sh.cur, v1: v, ep }, usize::MAX) {
        Pred::Ok(n, Ret::EE(x, y)) => Ok((*n, (x, y))),
        Pred::Reject(m) | Pred::Unspec(m) | Pred::Partial(m) => Err(m),
        _ => unreachable!(),
    }
}

fn set_curve(s: &mut Snap, e: usize, c: Curve) {
    s.e.get_mut(&e).unwrap().p.curve = c;
}

fn fill(s: &Snap, e: usize, fp: FPd) -> Result<(Snap, usize), &'static str> {
    match predict(s, &Req::CloseHole { e, fp: Some(fp), curved: false }, usize::MAX) {
        Pred::Ok(n, Ret::F(f)) => Ok((*n, f)),
        Pred::Reject(m) | Pred::Unspec(m) | Pred::Partial(m) => Err(m),
        _ => unreachable!(),
    }
}

fn close_plan(s: &Snap, sh: &Shadow, fp: FPd) -> Plan {
    let refuse = |w, cut| Plan { ok: Err(w), cut };
    let (Some((ci, co)), Some((si, _))) = (sh.cur_e, sh.start_e) else {
        return Plan { ok: Ok(vec![(s.clone(), None, None)]), cut: vec![] };
    };
    if sh.closed {
        return match fill(s, si, fp) {
            Ok((n, f)) => Plan { ok: Ok(vec![(n, None, Some(f))]), cut: vec![] },
            Err(w) => refuse(w, vec![]),
        };
    }
    if !sh.fresh {
        // which side a path that starts on existing edges fills is not specified
        let mut alts = vec![];
        let mut cut = vec![];
        let with = seg(s, sh, sh.start, (DEF, DEF)).ok();
        for (base, edge) in [Some((s.clone(), None)), with.map(|(n, xy)| (n, Some(xy)))].into_iter().flatten() {
            let mut es: Vec<usize> = sh.drawn.iter().copied().filter(|e| base.e.contains_key(e)).collect();
            es.extend(edge.map(|(x, y): (usize, usize)| [x, y]).into_iter().flatten());
            es.extend(es.clone().iter().filter_map(|e| base.e.get(e)).map(|e| e.twin));
            es.extend(sh.start_e.iter().flat_map(|(x, y)| [*x, *y]).filter(|e| base.e.contains_key(e)));
            es.sort();
            es.dedup();
            for e in es {
                if let Ok((n, f)) = fill(&base, e, fp) {
                    alts.push((n, edge, Some(f)));
                }
            }
            cut.push(base);
        }
        return Plan { ok: Ok(alts), cut };
    }
    if !s.e.contains_key(&ci) || !s.e.contains_key(&co) || !s.e.contains_key(&si) {
        return refuse("dead edge handle", vec![]);
    }
    let Some(end) = s.lp(ci).into_iter().find(|e| *e == co || *e == si) else {
        return refuse("the path was cut apart", vec![]);
    };
    if end == co {
        match seg(s, sh, sh.start, (DEF, DEF)) {
            Err(w) => refuse(w, vec![]),
            Ok((n, xy)) => match fill(&n, si, fp) {
                Err(w) => refuse(w, vec![n]),
                Ok((m, f)) => Plan { ok: Ok(vec![(m, Some(xy), Some(f))]), cut: vec![n] },
            },
        }
    } else {
        match fill(s, si, fp) {
            Err(w) => refuse(w, vec![]),
            Ok((m, f)) => Plan { ok: Ok(vec![(m, None, Some(f))]), cut: vec![] },
        }
    }
}

fn session_on<I: Ix>(ed: &mut Editor<I>, mesh: &mut M<I>, st: &Step, body: &[Step]) -> Result<(), Violation> {
    use procedural_modelling::math::*;
    let s = ed.cur.clone();
    let mut sh = Shadow {
        fresh: true,
        closed: false,
        has_face: false,
        start: NONE,
        cur: NONE,
        start_e: None,
        cur_e: None,
        drawn: vec![],
    };
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let es: Vec<usize> = s.e.keys().copied().collect();
    let p = pos(st);
    let fault = st.arg(5);
    let mut how = st.arg(3) % 6;
    if vs.is_empty() && how == 3 || es.is_empty() && how == 4 {
        how = 0;
    }
    // starting
    ed.last = format!("start a path ({how})");
    let (vp, plan) = match how {
        3 | 4 => (None, Plan { ok: Ok(vec![(s.clone(), None, None)]), cut: vec![] }),
        5 => (None, Plan { ok: Ok(vec![(s.clone(), None, None)]), cut: vec![] }),
        _ => {
            let vp = if how < 2 { VPd::new(FROMPOS, p) } else { VPd::new(fresh_tag(), p) };
            (Some(vp), Plan { ok: Ok(vec![(with_vertex(&s, vp).0, None, None)]), cut: vec![] })
        }
    };
    if fault > 0 {
        arm(fault);
    }
    let mp: *mut M<I> = mesh;
    let res = call(|| {
        // the mesh outlives every builder made here; after a failure no builder exists
        let m: &mut M<I> = unsafe { &mut *mp };
        match how {
            0 | 1 => Pb::<I>::start(m, p),
            2 => Pb::<I>::start_ex(m, VP(vp.unwrap())),
            3 => Pb::<I>::start_at(m, mk(vs[st.arg(4) as usize % vs.len()])),
            4 => Pb::<I>::start_at_edge(m, mk(es[st.arg(4) as usize % es.len()])),
            _ => Pb::<I>::new(m),
        }
    });
    let fired = fault > 0 && !disarm();
    let mut pb = match res {
        Res::Ok(mut pb) => {
            let (_, mv, _, _) = judge::<I, ()>(ed, unsafe { &*(pb.mesh() as *mut M<I>) }, "start", &plan, &Res::Ok(()), fired)?.unwrap();
            match how {
                3 => {
                    let v = vs[st.arg(4) as usize % vs.len()];
                    sh.fresh = s.v[&v].edge == NONE;
                    (sh.start, sh.cur) = (v, v);
                }
                4 => {
                    let v = s.target(es[st.arg(4) as usize % es.len()]);
                    sh.fresh = false;
                    (sh.start, sh.cur) = (v, v);
                }
                5 => {}
                _ => {
                    let v = *mv.values().next().unwrap();
                    (sh.start, sh.cur) = (v, v);
                }
            }
            if !sh.fresh {
                let pair = |x: Option<(I, I)>| x.map(|(a, b)| (ix(a), ix(b)));
                sh.start_e = pair(pb.start_edges());
                sh.cur_e = pair(pb.current_edges());
            }
            pb
        }
        ref r => {
            judge(ed, unsafe { &*mp }, "start", &plan, r, fired)?;
            return Ok(());
        }
    };
    known(&pb, &sh)?;
    if !sh.fresh {
        ed.stats.c("pb:on-existing-edges");
    }
    for st in body {
        let op = st.op.as_str();
        let s = ed.cur.clone();
        let fault = st.arg(5);
        let mut p = pos(st);
        if let (Some(v), 0) = (s.v.get(&sh.start), st.arg(1) % 4) {
            // close to the start of the path, or exactly there
            let off = [0.0, 0.0, 1e-9, 1e-6, -1e-4, 1e-3, -0.004, 0.02, 0.3];
            p = v.p.pos;
            p[(st.arg(2) % 3) as usize] += off[(st.arg(0) % 9) as usize];
        }
        let fp = new_fp();
        if !op.starts_with("pb-") {
            std::mem::swap(pb.mesh(), &mut ed.mesh);
            let r = ed.step(st);
            std::mem::swap(pb.mesh(), &mut ed.mesh);
            r?;
            if ed.dead {
                return Ok(());
            }
            ed.stats.c("pb:interleaved");
            continue;
        }
        if s.e.len() > ed.max_edges + 40 && I::CAP > 1000 {
            continue;
        }
        let what = &op[3..];
        // the target of the segment
        let t = st.arg(3);
        let vs: Vec<usize> = s.v.keys().copied().collect();
        let exvp = VPd::new(fresh_tag(), p);
        let (eps, newv) = match what {
            "lineex" => ((new_ep(), new_ep()), {
                let mut v = exvp;
                v.transform(&Aff::default());
                v
            }),
            _ => ((DEF, DEF), VPd::new(FROMPOS, ident(p))),
        };
        let auto = what == "auto";
        let to = if auto {
            s.v.get(&sh.start).filter(|v| v.p.pos == p).map(|_| sh.start)
        } else if t < 4 {
            None
        } else if t == 4 {
            Some(sh.start)
        } else if t % 3 == 2 && !vs.is_empty() {
            Some(vs[(t / 3) as usize % vs.len()])
        } else {
            Some(t as usize % (I::CAP.min(200)))
        };
        let curve = match what {
            "quad" => Curve::Quad(ident(ctrl(st, 1))),
            "cubic" => Curve::Cubic(ident(ctrl(st, 1)), ident(ctrl(st, 2))),
            _ => Curve::Lin,
        };
        let (c1, c2) = (ctrl(st, 1), ctrl(st, 2));
        ed.last = format!("{op} {:?}", st.a);
        let plan = match what {
            "close" => close_plan(&s, &sh, fp),
            "move" => {
                if sh.closed || sh.cur_e.is_none() {
                    Plan { ok: Ok(vec![(with_vertex(&s, newv).0, None, None)]), cut: vec![] }
                } else {
                    Plan { ok: Err("the path is open"), cut: vec![] }
                }
            }
            _ if auto && (sh.closed || !s.v.contains_key(&sh.start)) => Plan { ok: Err("nothing to continue"), cut: vec![] },
            _ => {
                let (s1, v) = match to {
                    None => with_vertex(&s, newv),
                    Some(v) => (s.clone(), v),
                };
                match seg(&s1, &sh, v, eps) {
                    Err(w) => Plan { ok: Err(w), cut: vec![s1] },
                    Ok((n, xy)) => {
                        let mut alts = vec![];
                        let mut a = n.clone();
                        set_curve(&mut a, xy.0, curve);
                        alts.push((a, Some(xy), None));
                        if curve != Curve::Lin {
                            let mut a = n.clone();
                            set_curve(
                                &mut a,
                                xy.1,
                                match curve {
                                    Curve::Cubic(a, b) => Curve::Cubic(b, a),
                                    c => c,
                                },
                            );
                            alts.push((a, Some(xy), None));
                        }
                        let mut cut = vec![s1, n];
                        cut.extend(alts.iter().map(|a| a.0.clone()));
                        Plan { ok: Ok(alts), cut }
                    }
                }
            }
        };
        if fault > 0 {
            arm(fault);
        }
        let id = |v: usize| if v == NONE { <I as IndexType>::max() } else { mk::<I>(v) };
        let res: Res<Option<I>> = call(|| {
            match (what, to) {
                ("close", _) => return Some(pb.close(FP(fp))),
                ("move", _) => {
                    pb.move_to_new(p);
                }
                ("quad", None) => {
                    pb.quad(c1, p);
                }
                ("quad", Some(v)) => {
                    pb.quad_to(c1, id(v));
                }
                ("cubic", None) => {
                    pb.cubic(c1, c2, p);
                }
                ("cubic", Some(v)) => {
                    pb.cubic_to(c1, c2, id(v));
                }
                ("auto", _) => {
                    let v = pb.add_vertex_autoclose(p);
                    pb.line_to(v);
                }
                ("lineex", None) => {
                    pb.line_ex(VP(exvp), EP(eps.0), EP(eps.1));
                }
                ("lineex", Some(v)) => {
                    pb.line_to_ex(id(v), EP(eps.0), EP(eps.1));
                }
                (_, None) => {
                    pb.line(p);
                }
                (_, Some(v)) => {
                    pb.line_to(id(v));
                }
            }
            None
        });
        let fired = fault > 0 && !disarm();
        let m: *mut M<I> = pb.mesh();
        // a free close may also be refused
        if !sh.fresh && what == "close" && matches!(res, Res::Panic(_)) {
            let p = Plan { ok: Err("unspecified"), cut: plan.cut };
            judge(ed, unsafe { &*m }, what, &p, &res, fired)?;
            return Ok(());
        }
        let Some((k, mv, me, mf)) = judge(ed, unsafe { &*m }, what, &plan, &res, fired)? else {
            // the builder is not used after a failure; the mesh is
            return Ok(());
        };
        let alt = &plan.ok.as_ref().unwrap()[k];
        let re = |x: usize| me.get(&x).copied().unwrap_or(x);
        let rv = |x: usize| mv.get(&x).copied().unwrap_or(x);
        match what {
            "close" => {
                if let Some((x, y)) = alt.1 {
                    sh.cur_e = Some((re(x), re(y)));
                    sh.cur = sh.start;
                    sh.drawn.extend([re(x), re(y)]);
                }
                let exp = alt.2.map_or(<I as IndexType>::max(), |f| mk(mf.get(&f).copied().unwrap_or(f)));
                if let Res::Ok(Some(f)) = res {
                    if f != exp {
                        return viol("close:handle", format!("close returned {f}, the new face is {exp}"));
                    }
                }
                if alt.2.is_some() {
                    sh.closed = true;
                    sh.has_face = true;
                    ed.stats.c("pb:faces");
                }
            }
            "move" => {
                let v = *mv.values().next().unwrap();
                sh = Shadow { fresh: true, closed: false, has_face: false, start: v, cur: v, start_e: None, cur_e: None, drawn: vec![] };
            }
            _ => {
                let (x, y) = alt.1.unwrap();
                let v = to.unwrap_or_else(|| *mv.values().next().unwrap());
                sh.closed = v == sh.start;
                sh.cur = rv(v);
                sh.cur_e = Some((re(x), re(y)));
                sh.start_e.get_or_insert((re(y), re(x)));
                sh.drawn.extend([re(x), re(y)]);
                ed.stats.c("pb:segments");
                if curve != Curve::Lin {
                    ed.stats.c("pb:curves");
                }
            }
        }
        known(&pb, &sh)?;
    }
    Ok(())
}

fn known<I: Ix>(pb: &Pb<I>, sh: &Shadow) -> Result<(), Violation> {
    let id = |v: I| if v == <I as procedural_modelling::math::IndexType>::max() { NONE } else { ix(v) };
    let pair = |x: Option<(I, I)>| x.map(|(a, b)| (ix(a), ix(b)));
    let r = call(|| (id(pb.start_vertex()), id(pb.current_vertex()), pair(pb.start_edges()), pair(pb.current_edges()), pb.is_closed(), pb.has_face()));
    let Res::Ok((s, c, se, ce, cl, hf)) = r else {
        return viol("state:unreadable", format!("the builder's accessors failed: {r:?}"));
    };
    if s != sh.start || c != sh.cur {
        return viol("state:vertices", format!("the builder is at {} of a path from {}; drawn: at {} from {}", sid(c), sid(s), sid(sh.cur), sid(sh.start)));
    }
    if se != sh.start_e || ce != sh.cur_e {
        return viol("state:edges", format!("the builder's edges are {se:?} and {ce:?}; drawn: {:?} and {:?}", sh.start_e, sh.cur_e));
    }
    if (cl != sh.closed && sh.cur_e.is_some()) || hf != sh.has_face {
        return viol("state:closed", format!("is_closed {cl}, has_face {hf}; drawn: {}, {}", sh.closed, sh.has_face));
    }
    Ok(())
}

// ------------------------------------------------------------------- whole outlines

/// A closed subpath: segment i runs from pts[i] to pts[i+1].
#[derive(Clone, Debug)]
pub struct Sub {
    pub pts: Vec<V3>,
    pub segs: Vec<Curve>,
}

impl Sub {
    /// Whether a simple mesh can hold it as one face.
    fn sound(&self) -> bool {
        let n = self.pts.len();
        n >= 3 && (0..n).all(|i| (0..i).all(|j| self.pts[i] != self.pts[j]))
    }
}

fn near(a: V3, b: V3, tol: f64) -> bool {
    (0..3).all(|k| (a[k] - b[k]).abs() <= tol)
}

fn same_curve(a: Curve, b: Curve, tol: f64) -> bool {
    match (a, b) {
        (Curve::Lin, Curve::Lin) => true,
        (Curve::Quad(p), Curve::Quad(q)) => near(p, q, tol),
        (Curve::Cubic(p, q), Curve::Cubic(r, s)) => near(p, r, tol) && near(q, s, tol),
        _ => false,
    }
}

fn reversed(c: Curve) -> Curve {
    match c {
        Curve::Cubic(a, b) => Curve::Cubic(b, a),
        c => c,
    }
}

/// The half-edge along segment i carries its curve (or its twin does, reversed).
fn carries(s: &Snap, e: usize, c: Curve, tol: f64) -> bool {
    let a = s.e[&e].p.curve;
    let b = s.e[&s.e[&e].twin].p.curve;
    let f = same_curve(a, c, tol);
    let r = same_curve(b, reversed(c), tol);
    f && r || f && b == Curve::Lin || a == Curve::Lin && r
}

struct Comp {
    vs: Vec<usize>,
    fs: BTreeSet<usize>,
}

fn new_comps(before: &Snap, after: &Snap) -> Result<Vec<Comp>, String> {
    let mut old = after.clone();
    old.v.retain(|i, _| before.v.contains_key(i));
    old.e.retain(|i, _| before.e.contains_key(i));
    old.f.retain(|i, _| before.f.contains_key(i));
    if let Some(d) = diff(before, &old) {
        return Err(format!("what was in the mesh changed: {d}"));
    }
    let mut seen = BTreeSet::new();
    let mut res = vec![];
    for v in after.v.keys().filter(|v| !before.v.contains_key(v)) {
        if !seen.insert(*v) {
            continue;
        }
        let mut c = Comp { vs: vec![*v], fs: BTreeSet::new() };
        let mut k = 0;
        while k < c.vs.len() {
            for e in after.out(c.vs[k]) {
                let w = after.target(e);
                if before.v.contains_key(&w) {
                    return Err("a new edge touches what was in the mesh".into());
                }
                if seen.insert(w) {
                    c.vs.push(w);
                }
                let f = after.e[&e].face;
                if f != NONE {
                    c.fs.insert(f);
                }
            }
            k += 1;
        }
        res.push(c);
    }
    Ok(res)
}

/// Checks one component against the first `n` points of a subpath; `whole`: closed with its face.
fn comp_is(s: &Snap, c: &Comp, sub: &Sub, tol: f64, whole: bool) -> Result<(), String> {
    let n = sub.pts.len();
    if whole && c.vs.len() != n {
        return Err(format!("{} vertices for {n} points", c.vs.len()));
    }
    let m = c.vs.len();
    if m > n {
        return Err("more vertices than points".into());
    }
    // a nearest point may serve several points only if they are closer than the tolerance
    let mut at: Vec<usize> = vec![];
    for p in &sub.pts[..m] {
        let Some(v) = c.vs.iter().find(|v| !at.contains(v) && near(s.v[v].p.pos, *p, tol)) else {
            return Err(format!("no vertex at {p:?}"));
        };
        at.push(*v);
    }
    let ne: usize = c.vs.iter().map(|v| s.out(*v).len()).sum();
    let closed = ne == 2 * n && m == n;
    if !closed && ne != 2 * (m - 1) {
        return Err(format!("{ne} half-edges among {m} of {n} vertices"));
    }
    if whole && !closed {
        return Err("the outline is not closed".into());
    }
    let segs = if closed { n } else { m - 1 };
    let mut fwd = vec![];
    for i in 0..segs {
        let Some(e) = s.between(at[i], at[(i + 1) % n]) else {
            return Err(format!("no edge for segment {i}"));
        };
        let last = !whole && (i + 1 == segs || i + 1 == n);
        let bare = s.e[&e].p.curve == Curve::Lin && s.e[&s.e[&e].twin].p.curve == Curve::Lin;
        if !(carries(s, e, sub.segs[i], tol) || last && bare) {
            return Err(format!("segment {i} carries {:?}/{:?} instead of {:?}", s.e[&e].p.curve, s.e[&s.e[&e].twin].p.curve, sub.segs[i]));
        }
        fwd.push(e);
    }
    if c.fs.is_empty() && !whole {
        return Ok(());
    }
    if c.fs.len() != 1 || !closed {
        return Err(format!("{} faces", c.fs.len()));
    }
    let f = *c.fs.iter().next().unwrap();
    let mut lp: Vec<usize> = s.face_loop(f);
    let mut a = fwd.clone();
    let mut b: Vec<usize> = fwd.iter().map(|e| s.e[e].twin).collect();
    lp.sort();
    a.sort();
    b.sort();
    if lp != a && lp != b {
        return Err("the face does not run once around the outline".into());
    }
    if s.f[&f].curved {
        return Err("the face is marked curved".into());
    }
    Ok(())
}

/// All subpaths are there, in any order of ids; when `cut`, a prefix of them and part of the next.
fn outlines(before: &Snap, after: &Snap, subs: &[Sub], cut: bool, tol: f64) -> Result<usize, String> {
    let mut cs = new_comps(before, after)?;
    let faces = after.f.keys().filter(|f| !before.f.contains_key(f)).count();
    let mut done = 0;
    let mut why = String::new();
    for sub in subs {
        let mut hit = None;
        for (k, c) in cs.iter().enumerate() {
            match comp_is(after, c, sub, tol, true) {
                Ok(()) => {
                    hit = Some(k);
                    break;
                }
                Err(e) if why.is_empty() || !e.contains("points") && !e.contains("no vertex") => why = e,
                Err(_) => {}
            }
        }
        match hit {
            Some(k) => {
                cs.remove(k);
                done += 1;
            }
            None if cut => break,
            None => return Err(format!("outline {done} is missing or wrong: {why}")),
        }
    }
    if !cut {
        if !cs.is_empty() {
            return Err(format!("{} components more than drawn", cs.len()));
        }
        if faces != subs.len() {
            return Err(format!("{faces} new faces for {} outlines", subs.len()));
        }
        return Ok(done);
    }
    let Some(next) = subs.get(done) else {
        return if cs.is_empty() { Ok(done) } else { Err("more remains than was drawn".into()) };
    };
    // at most a part of the next outline, and one vertex not yet connected
    let mut lone = 0;
    let mut part = 0;
    let mut last = String::new();
    for c in &cs {
        match comp_is(after, c, next, tol, false) {
            Ok(()) => part += 1,
            Err(e) => {
                if c.vs.len() == 1 && after.out(c.vs[0]).is_empty() && next.pts.iter().any(|p| near(after.v[&c.vs[0]].p.pos, *p, tol)) {
                    lone += 1;
                } else {
                    last = e;
                }
            }
        }
    }
    if !last.is_empty() {
        return Err(format!("remains are not part of the drawing: {last}"));
    }
    if part > 1 && part + lone > 2 || lone > 1 {
        return Err(format!("{} pieces remain of one outline", part + lone));
    }
    Ok(done)
}

// ------------------------------------------------------------------- SVG

fn num(r: &mut Rng) -> f64 {
    r.range(-160, 160) as f64 / 4.0
}

fn fmt(x: f64) -> String {
    format!("{x}")
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Sound,
    /// a single point without a segment: at most a vertex
    Dot,
    /// fewer than three points
    Short,
}

/// One subpath as SVG path data; returns the text and what it draws.
fn subpath(r: &mut Rng, cur: &mut (f64, f64), first: bool, wild: bool) -> (String, Sub, Kind) {
    let n = if wild && r.chance(1, 3) { 1 + r.below(2) } else { 3 + r.below(7) };
    let mut pts: Vec<(f64, f64)> = vec![];
    while pts.len() < n {
        let p = (num(r), num(r));
        // shortcuts to horizontal and vertical lines
        let p = match (r.below(5), pts.last()) {
            (0, Some(q)) => (p.0, q.1),
            (1, Some(q)) => (q.0, p.1),
            // a short segment, or one that ends next to the start
            (2, Some(q)) if r.chance(1, 3) => {
                let q = *r.pick(&[*q, pts[0]]);
                (q.0 + r.range(-3, 3) as f64 / 512.0, q.1 + r.range(-3, 3) as f64 / 512.0)
            }
            _ => p,
        };
        if !pts.contains(&p) {
            pts.push(p);
        }
    }
    let v = |p: (f64, f64)| V3::new(p.0, p.1, 0.0);
    let mut out = String::new();
    let sep = *r.pick(&[" ", ",", " , "]);
    let xy = |p: (f64, f64)| format!("{}{}{}", fmt(p.0), sep, fmt(p.1));
    let rel = |p: (f64, f64), q: (f64, f64)| (p.0 - q.0, p.1 - q.1);
    let c0 = *cur;
    if first || r.chance(1, 2) {
        out += &format!("M{} ", xy(pts[0]));
    } else {
        out += &format!("m {} ", xy(rel(pts[0], c0)));
    }
    let mut segs = vec![];
    // 0: closed by z only, 1: the last segment returns to the start, 2: left open
    let end = r.below(5).min(2);
    let closing_seg = end == 1;
    let m = if closing_seg { n } else { n - 1 };
    let mut last: Option<(char, (f64, f64))> = None;
    for i in 0..m {
        let a = pts[i];
        let b = pts[(i + 1) % n];
        let abs = r.chance(1, 2);
        let g = |p: (f64, f64)| if abs { xy(p) } else { xy(rel(p, a)) };
        let cs = |c: char| if abs { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        let c1 = (num(r), num(r));
        let c2 = (num(r), num(r));
        let refl = |q: (f64, f64)| (2.0 * a.0 - q.0, 2.0 * a.1 - q.1);
        let kind = r.below(8);
        if a.1 == b.1 && kind < 5 {
            out += &format!("{}{} ", cs('h'), fmt(if abs { b.0 } else { b.0 - a.0 }));
            segs.push(Curve::Lin);
            last = None;
        } else if a.0 == b.0 && kind < 5 {
            out += &format!("{}{} ", cs('v'), fmt(if abs { b.1 } else { b.1 - a.1 }));
            segs.push(Curve::Lin);
            last = None;
        } else if kind < 4 {
            out += &format!("{}{} ", cs('l'), g(b));
            segs.push(Curve::Lin);
            last = None;
        } else if kind == 4 {
            out += &format!("{}{} {} ", cs('q'), g(c1), g(b));
            segs.push(Curve::Quad(v(c1)));
            last = Some(('q', c1));
        } else if kind == 5 {
            // smooth
            match last {
                Some(('q', q)) => {
                    out += &format!("{}{} ", cs('t'), g(b));
                    segs.push(Curve::Quad(v(refl(q))));
                    last = Some(('q', refl(q)));
                }
                Some((_, q)) => {
                    out += &format!("{}{} {} ", cs('s'), g(c2), g(b));
                    segs.push(Curve::Cubic(v(refl(q)), v(c2)));
                    last = Some(('c', c2));
                }
                None => {
                    out += &format!("{}{} {} {} ", cs('c'), g(c1), g(c2), g(b));
                    segs.push(Curve::Cubic(v(c1), v(c2)));
                    last = Some(('c', c2));
                }
            }
        } else {
            out += &format!("{}{} {} {} ", cs('c'), g(c1), g(c2), g(b));
            segs.push(Curve::Cubic(v(c1), v(c2)));
            last = Some(('c', c2));
        }
    }
    if !closing_seg {
        segs.push(Curve::Lin);
    }
    if end != 2 {
        out += if r.chance(1, 2) { "Z " } else { "z" };
        *cur = pts[0];
    } else {
        *cur = if closing_seg { pts[0] } else { pts[n - 1] };
    }
    let ok = match n {
        1 if !closing_seg => Kind::Dot,
        1 | 2 => Kind::Short,
        _ => Kind::Sound,
    };
    (out, Sub { pts: pts.into_iter().map(v).collect(), segs }, ok)
}

fn rect_sub(x: f64, y: f64, w: f64, h: f64) -> Sub {
    let v = |a, b| V3::new(a, b, 0.0);
    Sub { pts: vec![v(x, y), v(x + w, y), v(x + w, y + h), v(x, y + h)], segs: vec![Curve::Lin; 4] }
}

/// A document, the outlines it draws before the first subpath no simple mesh can hold, whether
/// there is such a subpath, and how many single points come before it.
fn document(r: &mut Rng, wild: bool) -> (String, Vec<Sub>, bool, usize) {
    let mut all: Vec<(Kind, Sub)> = vec![];
    let mut body = String::new();
    let mut depth = 0;
    for _ in 0..1 + r.below(3) {
        if r.chance(1, 5) {
            body += "<g>";
            depth += 1;
        }
        match r.below(8) {
            0 => {
                let (x, y) = (num(r), num(r));
                let (w, h) = (1.0 + r.below(40) as f64 / 4.0, 1.0 + r.below(40) as f64 / 4.0);
                body += &format!("<rect x='{x}' y='{y}' width='{w}' height='{h}'/>");
                all.push((Kind::Sound, rect_sub(x, y, w, h)));
            }
            1 => {
                let n = 3 + r.below(5);
                let mut p: Vec<(f64, f64)> = vec![];
                while p.len() < n {
                    let q = (num(r), num(r));
                    if !p.contains(&q) {
                        p.push(q);
                    }
                }
                let t: Vec<String> = p.iter().map(|q| format!("{},{}", q.0, q.1)).collect();
                let name = *r.pick(&["polygon", "polyline"]);
                body += &format!("<{name} points='{}'/>", t.join(" "));
                all.push((Kind::Sound, Sub { pts: p.iter().map(|q| V3::new(q.0, q.1, 0.0)).collect(), segs: vec![Curve::Lin; n] }));
            }
            2 => {
                // not visible: nothing is drawn
                let mut c = (0.0, 0.0);
                let (t, _, _) = subpath(r, &mut c, true, false);
                let how = *r.pick(&["display='none'", "visibility='hidden'", "fill='none'"]);
                body += &format!("<path d='{t}' {how}/>");
            }
            _ => {
                let mut t = String::new();
                let mut c = (0.0, 0.0);
                for k in 0..1 + r.below(4) {
                    let (s, sub, ok) = subpath(r, &mut c, k == 0, wild);
                    t += &s;
                    all.push((ok, sub));
                }
                let style = *r.pick(&["", "stroke='red'", "fill='blue' stroke='black'", "fill='none' stroke='black'", "fill-rule='evenodd'"]);
                body += &format!("<path d='{}' {style}/>", t.trim_end());
            }
        }
        if depth > 0 && r.chance(1, 2) {
            body += "</g>";
            depth -= 1;
        }
    }
    for _ in 0..depth {
        body += "</g>";
    }
    let head = *r.pick(&[
        "<svg xmlns='http://www.w3.org/2000/svg' width='100' height='100'>",
        "<svg xmlns='http://www.w3.org/2000/svg'>",
        "<?xml version='1.0'?><svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><!-- outline -->",
    ]);
    let k = all.iter().position(|s| s.0 == Kind::Short);
    all.truncate(k.unwrap_or(all.len()));
    let dots = all.iter().filter(|s| s.0 == Kind::Dot).count();
    all.retain(|s| s.0 == Kind::Sound);
    (format!("{head}{body}</svg>"), all.into_iter().map(|s| s.1).collect(), k.is_some(), dots)
}

fn svg<I: Ix>(ed: &mut Editor<I>, real: &mut Option<Mesh2d64Curved>, st: &Step) -> Result<(), Violation> {
    if real.is_none() {
        let mut m = Mesh2d64Curved::default();
        for q in ed.log.iter().flatten() {
            if let Res::Budget = call(|| perform2(&mut m, q)) {
                return Ok(());
            }
        }
        *real = Some(m);
    }
    let m = real.as_mut().unwrap();
    let Ok(before) = topo2(m) else { return Ok(()) };
    if integrity(&before).is_err() || before.e.len() > 600 {
        ed.stats.c("svg:unusable-mesh");
        *real = None;
        return Ok(());
    }
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let mode = st.arg(3);
    if mode == 4 {
        return rounds(ed, m, &before, &mut r);
    }
    let (mut doc, sound, short, dots) = document(&mut r, mode == 2);
    match mode {
        1 => {
            // the document ends early
            let mut k = 1 + st.arg(4) as usize * (doc.len() - 1) / 1000;
            while !doc.is_char_boundary(k) {
                k -= 1;
            }
            doc.truncate(k);
        }
        3 => {
            // path data that breaks off: the segments before the error count
            if let Some(k) = doc.find("d='") {
                doc.insert_str(k + 3, ["M 0 0 L 1 1 L 2 0 Z ", "M 3 1 Q 4 5 6 7 L 2 1 "][(st.arg(4) % 2) as usize]);
            }
        }
        _ => {}
    }
    ed.last = doc.clone();
    let res = call(|| {
        BackendSVG::<MeshType2d64PNUCurved>::import_svg(m, &doc);
    });
    ed.stats.c(&format!("svg:{}", res.name()));
    let after = match topo2(m) {
        Ok(s) => s,
        Err(e) => return viol("svg:unreadable", e),
    };
    ed.stats.t(after.hash());
    ed.stats.state(after.shape_hash());
    if let Err(e) = integrity(&after) {
        return viol(format!("svg:integrity:{}", class(&e)), format!("{doc}: {e}"));
    }
    if let Res::Budget = res {
        return viol("svg:nontermination", doc);
    }
    if mode == 1 {
        // never accepted as a whole; nothing of it may be drawn
        if let Some(d) = diff(&before, &after) {
            return viol("svg:truncated", format!("{doc}: a truncated document drew: {d}"));
        }
        ed.stats.c("svg:truncated");
        return Ok(());
    }
    if mode == 3 {
        if let Err(e) = new_comps(&before, &after) {
            return viol(format!("svg:{}", class(&e)), format!("{doc}: {e}"));
        }
        return Ok(());
    }
    let r = match &res {
        Res::Ok(()) if short => new_comps(&before, &after).map(|_| 0),
        Res::Ok(()) if dots == 0 => outlines(&before, &after, &sound, false, 1e-6),
        Res::Ok(()) => then_at_most(&before, &after, &sound, dots, dots),
        Res::Panic(p) if !short => return viol("svg:valid-panicked", format!("{doc}: {p}")),
        _ => {
            ed.stats.c("svg:refused");
            then_at_most(&before, &after, &sound, dots + 2, dots + 1)
        }
    };
    match r {
        Ok(n) => ed.stats.add("svg:subpaths", n as u64),
        Err(e) => return viol(format!("svg:{}", class(&e)), format!("{doc}: {e}")),
    }
    Ok(())
}

/// Circles and ellipses: how many pieces the outline has is the importer's choice.
fn rounds<I: Ix>(ed: &mut Editor<I>, m: &mut Mesh2d64Curved, before: &Snap, r: &mut Rng) -> Result<(), Violation> {
    let mut doc = "<svg xmlns='http://www.w3.org/2000/svg'>".to_string();
    let mut all = vec![];
    for _ in 0..1 + r.below(3) {
        let (x, y, rx) = (num(r), num(r), 1.0 + r.below(60) as f64 / 4.0);
        let ry = if r.chance(1, 2) { rx } else { 1.0 + r.below(60) as f64 / 4.0 };
        if rx == ry {
            doc += &format!("<circle cx='{x}' cy='{y}' r='{rx}'/>");
        } else if r.chance(1, 2) {
            doc += &format!("<ellipse cx='{x}' cy='{y}' rx='{rx}' ry='{ry}'/>");
        } else {
            let (a, b) = (x - rx, x + rx);
            doc += &format!("<path d='M{a},{y} A{rx} {ry} 0 1 1 {b} {y} A {rx} {ry} 0 0 1 {a} {y} Z'/>");
        }
        all.push((x, y, rx, ry));
    }
    doc += "</svg>";
    let res = call(|| {
        BackendSVG::<MeshType2d64PNUCurved>::import_svg(m, &doc);
    });
    let after = match topo2(m) {
        Ok(s) => s,
        Err(e) => return viol("svg:unreadable", e),
    };
    if let Err(e) = integrity(&after) {
        return viol(format!("svg:integrity:{}", class(&e)), format!("{doc}: {e}"));
    }
    if !matches!(res, Res::Ok(())) {
        return viol("svg:valid-panicked", format!("{doc}: {res:?}"));
    }
    let cs = match new_comps(before, &after) {
        Ok(c) => c,
        Err(e) => return viol(format!("svg:{}", class(&e)), format!("{doc}: {e}")),
    };
    if cs.len() != all.len() {
        return viol("svg:rounds", format!("{doc}: {} outlines", cs.len()));
    }
    for c in &cs {
        let n = c.vs.len();
        let lp = c.fs.iter().next().map_or(vec![], |f| after.face_loop(*f));
        let ne: usize = c.vs.iter().map(|v| after.out(*v).len()).sum();
        if c.fs.len() != 1 || lp.len() != n || ne != 2 * n {
            return viol("svg:rounds", format!("{doc}: {n} vertices, {ne} half-edges, {} faces, loop of {}", c.fs.len(), lp.len()));
        }
        let fits = |x: f64, y: f64, rx: f64, ry: f64| {
            let on = |p: [f64; 2]| ((((p[0] - x) / rx).powi(2) + ((p[1] - y) / ry).powi(2)).sqrt() - 1.0).abs() < 0.01;
            let at = |v: usize| [after.v[&v].p.pos[0], after.v[&v].p.pos[1]];
            let mut turn = 0.0f64;
            let ok = lp.iter().all(|e| {
                let (a, b) = (at(after.e[e].origin), at(after.target(*e)));
                let ang = |p: [f64; 2]| ((p[1] - y) / ry).atan2((p[0] - x) / rx);
                let mut d = ang(b) - ang(a);
                if d > std::f64::consts::PI {
                    d -= 2.0 * std::f64::consts::PI;
                } else if d < -std::f64::consts::PI {
                    d += 2.0 * std::f64::consts::PI;
                }
                turn += d;
                let (mut c, t) = (after.e[e].p.curve, after.e[&after.e[e].twin].p.curve);
                if c == Curve::Lin {
                    c = reversed(t);
                }
                let mid = |k: usize| match c {
                    Curve::Lin => (a[k] + b[k]) / 2.0,
                    Curve::Quad(q) => a[k] / 4.0 + q[k] / 2.0 + b[k] / 4.0,
                    Curve::Cubic(q, w) => (a[k] + 3.0 * q[k] + 3.0 * w[k] + b[k]) / 8.0,
                };
                on(a) && (a == b || on([mid(0), mid(1)]) || ((a[0] - b[0]).abs() + (a[1] - b[1]).abs()) < 0.01 * (rx + ry))
            });
            ok && (turn.abs() - 2.0 * std::f64::consts::PI).abs() < 1e-6
        };
        let Some(k) = all.iter().position(|(x, y, rx, ry)| fits(*x, *y, *rx, *ry)) else {
            return viol("svg:rounds", format!("{doc}: an outline follows none of the shapes"));
        };
        all.remove(k);
        ed.stats.c("svg:subpaths");
        ed.stats.c("svg:rounds");
    }
    Ok(())
}

/// The sound outlines are complete; besides, few vertices without faces are left.
fn then_at_most(before: &Snap, after: &Snap, subs: &[Sub], vertices: usize, pieces: usize) -> Result<usize, String> {
    let mut cs = new_comps(before, after)?;
    for (i, sub) in subs.iter().enumerate() {
        match cs.iter().position(|c| comp_is(after, c, sub, 1e-6, true).is_ok()) {
            Some(k) => {
                cs.remove(k);
            }
            None => return Err(format!("outline {i}, drawn before a refused one, is missing or wrong")),
        }
    }
    let nv: usize = cs.iter().map(|c| c.vs.len()).sum();
    let nf: usize = cs.iter().map(|c| c.fs.len()).sum();
    if nv > vertices || nf > 0 || cs.len() > pieces.max(vertices) {
        return Err(format!("{nv} vertices and {nf} faces remain of a refused outline"));
    }
    Ok(subs.len())
}

// ------------------------------------------------------------------- text

fn text<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let small = I::CAP < 1000;
    let otf = st.arg(2) % 4 == 0 && !small;
    let font: ttf::Font = if otf {
        match ttf::Font::file() {
            Some(f) => f,
            None => return Ok(()),
        }
    } else {
        ttf::Font::random(&mut r)
    };
    let scale = [1.0f32, 0.5, 12.0, 16.0, 100.0, 0.01][(st.arg(3) % 6) as usize];
    let n = 1 + r.below(if otf { 3 } else { 9 });
    let s: String = (0..n).map(|_| font.any_char(&mut r)).collect();
    ed.log = None;
    let before = ed.cur.clone();
    let Some((subs, tol)) = font.expected(&s, scale) else { return Ok(()) };
    if subs.iter().any(|s| !s.sound()) {
        ed.stats.c("text:unsound-outline");
        return Ok(());
    }
    let fault = st.arg(4);
    if fault > 0 {
        arm(fault);
    }
    ed.last = format!("layout_text {s:?} at {scale}");
    let mesh = &mut ed.mesh;
    let res = call(|| Font::new(&font.data, scale).layout_text::<3, MT<I>>(&s, mesh));
    let fired = fault > 0 && !disarm();
    let m = std::mem::take(&mut ed.mesh);
    let after = observe::<I>(ed, &m, "text");
    ed.mesh = m;
    let after = after?;
    ed.cur = after.clone();
    ed.stats.c(&format!("text:{}", res.name()));
    let room = before.v.len() + subs.iter().map(|s| s.pts.len()).sum::<usize>() + ed.leaks <= I::CAP
        && before.e.len() + ed.leaks + 2 * subs.iter().map(|s| s.pts.len()).sum::<usize>() <= I::CAP;
    let v = match &res {
        Res::Ok(()) if fired => return viol("text:fault-swallowed", "a panic of caller code did not propagate"),
        Res::Ok(()) => outlines(&before, &after, &subs, false, tol),
        Res::Panic(m) if room => return viol("text:valid-panicked", format!("laying out {s:?}: {m}")),
        Res::Budget => return viol("text:nontermination", s),
        _ => {
            ed.leaks += 8;
            outlines(&before, &after, &subs, true, tol)
        }
    };
    match v {
        Ok(n) => ed.stats.add("text:contours", n as u64),
        Err(e) => return viol(format!("text:{}", class(&e)), format!("laying out {s:?} at {scale}: {e}")),
    }
    Ok(())
}
