//! C07: results do not depend on entropy, on other meshes, or on what other threads do.

use super::tri::*;
use super::*;
use crate::by_index;
use crate::env::*;
use crate::geom::*;
use crate::rng::{hstr, mix2};
use crate::snap::*;
use crate::types::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::primitives::*;
use procedural_modelling::tesselate::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

const N_OBS: u64 = 13;
const OBS: [&str; N_OBS as usize] = [
    "triangulate", "flat-normals", "smooth-normals", "dense", "paths", "pairs", "local", "matrices", "compare", "subdivide",
    "copies", "text", "solid",
];

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    let mode = idx % 4;
    sc.set("mode", mode as i64);
    sc.set("it", [0, 1, 2, 0][(idx / 4 % 4) as usize]);
    let len = r.below(25);
    let faults = r.chance(1, 3);
    gen_history(r, sc, len, faults, 4);
    if r.chance(1, 2) {
        gen_polys(r, sc, 3);
    }
    let n = if mode == 3 { 3 + r.below(8) } else { 3 + r.below(6) };
    sprinkle(r, sc, n, &mut |r| {
        let mut a = vec![r.below(N_OBS as usize) as u64];
        a.extend(args(r, 3));
        Step::new("obs", &a)
    });
    sc.set("threads", 2 + r.below(4) as i64);
    sc.set("quantum", *r.pick(&[1, 2, 3, 5, 12, 40]));
    sc.set("inside", *r.pick(&[0, 1, 2, 5, 20]));
    sc.set("sched", r.below(1 << 30) as i64);
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

/// Everything a script observed, in order.
#[derive(Default, Clone)]
struct Log(Vec<(String, u64, String)>);
impl Log {
    fn put(&mut self, what: &str, v: String) {
        let h = hstr(&v);
        self.0.push((what.to_string(), h, v.chars().take(200).collect()));
    }
    fn res<R: Debug>(&mut self, what: &str, r: Res<R>) {
        match r {
            Res::Ok(r) => self.put(what, format!("{r:?}")),
            Res::Panic(p) => self.put(what, format!("panic {}", class(&p))),
            o => self.put(what, o.name().to_string()),
        }
    }
    fn hash(&self) -> u64 {
        self.0.iter().fold(3, |a, x| mix2(a, mix2(hstr(&x.0), x.1)))
    }
}

fn compare(how: &str, alone: &Log, other: &Log) -> Result<(), Violation> {
    for (i, (a, b)) in alone.0.iter().zip(&other.0).enumerate() {
        if a.0 != b.0 || a.1 != b.1 {
            return viol(
                format!("{how}:{}", a.0.trim_end_matches(|c: char| c.is_ascii_digit())),
                format!("observation {i} ({}) is {} on its own, but {} ({}) {how}", a.0, a.2, b.2, b.0),
            );
        }
    }
    if alone.0.len() != other.0.len() {
        return viol(format!("{how}:length"), format!("{} observations, then {}", alone.0.len(), other.0.len()));
    }
    Ok(())
}

fn snap_text<I: Ix>(m: &M<I>) -> String {
    match snapshot::<I>(m) {
        Ok(s) => format!("{:016x} v{} e{} f{}", s.hash(), s.v.len(), s.e.len(), s.f.len()),
        Err(e) => format!("unreadable {}", class(&e)),
    }
}

struct Lerp;
impl<I: Ix> VertexInterpolator<3, MT<I>> for Lerp {
    fn call(&self, mesh: &M<I>, vs: [(usize, I); 3]) -> VP {
        event(Ev::Interp, 0);
        let mut p = V3::zeros();
        let mut w = 0.0;
        for (k, v) in vs {
            p += mesh.vertex(v).payload().0.pos * k as f64;
            w += k as f64;
        }
        VP::new(fresh_tag(), p / w)
    }
}

/// One observation of a shared mesh. Everything here only reads `m` or edits copies of it.
fn observe<I: Ix>(m: &M<I>, st: &Step, log: &mut Log) {
    let s = match snapshot::<I>(m) {
        Ok(s) => s,
        Err(e) => return log.put("snapshot", class(&e)),
    };
    let kind = (st.arg(0) % N_OBS) as usize;
    let name = OBS[kind];
    let vs: Vec<usize> = s.v.keys().copied().collect();
    let mut r = Rng::new(mix2(st.arg(1), st.arg(2)));
    match name {
        "triangulate" | "flat-normals" | "smooth-normals" => {
            let mut c = match call(|| m.clone()) {
                Res::Ok(c) => c,
                _ => return log.put("clone", "failed".into()),
            };
            let (mut convex, mut generic) = (true, true);
            for f in s.f.keys() {
                match face_geo(&s, *f) {
                    Some(g) if good(&g) && g.verts.len() <= 14 => {
                        convex &= g.shape.convex;
                        generic &= g.shape.triple > 1e-6;
                    }
                    _ => {
                        let _ = call(|| c.remove_face(mk::<I>(*f)));
                    }
                }
            }
            use TriangulationAlgorithm::*;
            let mut algs = vec![Sweep, SweepDelaunay];
            if generic {
                algs.extend([EarClipping, SweepDynamic, Delaunay, MinWeight, Auto]);
            }
            if convex {
                algs.push(Fan);
            }
            let alg = algs[st.arg(1) as usize % algs.len()];
            let mut meta = TesselationMeta::default();
            match name {
                "triangulate" => log.res(name, call_b(50_000_000, || (alg, c.triangulate(alg, &mut meta)))),
                "flat-normals" => {
                    log.res(name, call_b(50_000_000, || (alg, c.triangulate_and_generate_flat_normals_post(alg, &mut meta))))
                }
                _ => {
                    let r = call(|| {
                        c.generate_smooth_normals();
                    });
                    log.res(name, r);
                    log.put("smooth-result", snap_text::<I>(&c));
                }
            }
        }
        "dense" => {
            if vs.is_empty() {
                return;
            }
            let mut l: Vec<I> = (0..20).map(|_| mk::<I>(*r.pick(&vs))).collect();
            let x = call(|| m.dense_vertices(&mut l));
            log.res(name, x);
            log.put("dense-indices", format!("{:?}", l.iter().map(|i| ix(*i)).collect::<Vec<_>>()));
        }
        "paths" => {
            for _ in 0..6.min(vs.len()) {
                let (a, b) = (*r.pick(&vs), *r.pick(&vs));
                log.res(name, call(|| m.shortest_path(mk::<I>(a), mk::<I>(b)).map(|p| p.into_iter().map(ix).collect::<Vec<_>>())));
            }
        }
        "pairs" => {
            let mut t = String::new();
            for _ in 0..40.min(vs.len() * vs.len()) {
                let (a, b) = (mk::<I>(*r.pick(&vs)), mk::<I>(*r.pick(&vs)));
                let x = call(|| (m.shared_edge_id(a, b).map(ix), m.shared_face(a, b).map(ix)));
                t += &format!("{x:?};");
            }
            log.put(name, t);
        }
        "local" => {
            let mut t = String::new();
            for v in &vs {
                let x = call(|| {
                    let v = m.vertex(mk::<I>(*v));
                    (
                        v.neighbor_ids(m).map(ix).collect::<Vec<_>>(),
                        v.faces(m).map(|f| ix(f.id())).collect::<Vec<_>>(),
                        v.degree(m),
                        v.edges_in(m).map(|e| ix(e.id())).collect::<Vec<_>>(),
                    )
                });
                t += &format!("{x:?};");
            }
            for f in s.f.keys() {
                let x = call(|| m.face(mk::<I>(*f)).vertices(m).map(|v| ix(v.id())).collect::<Vec<_>>());
                t += &format!("{x:?};");
            }
            log.put(name, t);
            log.res("checker", call(|| m.check().is_ok()));
        }
        "matrices" => {
            log.res("degrees", call(|| m.degrees().map(|(v, d)| (ix(v), d)).collect::<Vec<_>>()));
            if vs.len() <= 60 && vs.iter().enumerate().all(|(i, v)| i == *v) {
                log.res(
                    name,
                    call(|| (m.adjacency_matrix::<f64>(), m.degree_matrix::<f64>(), m.laplacian_euclidean::<3>())),
                );
            }
        }
        "compare" => {
            let Res::Ok(mut c) = call(|| m.clone()) else { return };
            let k = st.arg(1) % 6;
            let _ = call(|| match k {
                0 => {}
                1 => {
                    if let Some(v) = vs.get(st.arg(2) as usize % vs.len().max(1)) {
                        c.vertex_mut(mk::<I>(*v)).payload_mut().0.pos = V3::new(77.0, 1.0, 2.0);
                    }
                }
                2 => {
                    let fs: Vec<usize> = s.f.keys().copied().collect();
                    for _ in 0..1 + st.arg(2) % 3 {
                        if !fs.is_empty() {
                            c.remove_face(mk::<I>(*r.pick(&fs)));
                        }
                    }
                }
                3 => {
                    c.flip();
                }
                4 => {
                    c.add_isolated_edge_default(VP::new(fresh_tag(), V3::new(9.0, 9.0, 9.0)), VP::new(fresh_tag(), V3::new(8.0, 9.0, 9.0)));
                }
                _ => {
                    for v in &vs {
                        let p = c.vertex(mk::<I>(*v)).payload().0.pos;
                        c.vertex_mut(mk::<I>(*v)).payload_mut().0.pos = p + V3::new(0.0, 1e-3, 0.0);
                    }
                }
            });
            for (a, b, w) in [(m, &c, 'a'), (&c, m, 'b')] {
                log.res(&format!("trivial-{w}"), call(|| a.is_trivially_isomorphic(b)));
                log.res(&format!("trivial-pos-{w}"), call(|| a.is_trivially_isomorphic_pos::<3, f64, V3>(b, 1e-6)));
                log.res(&format!("iso-pos-{w}"), call(|| a.is_isomorphic_pos::<3, f64, V3>(b, 1e-6)));
                log.res(&format!("iso-by-pos-{w}"), call(|| a.is_isomorphic_by_pos::<f64, 3, V3, MT<I>>(b, 1e-6)));
                let few = st.arg(3) % 3 + 1;
                for (k, modulus) in [few, 1 << 60].into_iter().enumerate() {
                    let x = call(|| {
                        a.find_payload_isomorphism::<MT<I>, _>(b, |x, y| {
                            event(Ev::Closure, 0);
                            x.payload().0.tag % modulus == y.payload().0.tag % modulus
                        })
                        .map(|m| m.iter().map(|(x, y)| (ix(*x), ix(*y))).collect::<BTreeMap<_, _>>())
                    });
                    log.res(&format!("matching{k}-{w}"), x);
                    let x = call(|| {
                        a.is_isomorphic_by::<MT<I>, _>(b, |x, y| x.payload().0.tag % modulus == y.payload().0.tag % modulus)
                    });
                    log.res(&format!("iso-by{k}-{w}"), x);
                }
            }
        }
        "subdivide" => {
            let Res::Ok(mut c) = call(|| m.clone()) else { return };
            if s.e.len() > I::CAP.min(300) / 4 {
                return;
            }
            for f in s.f.keys() {
                if s.face_loop(*f).len() != 3 && st.arg(1) % 5 != 0 {
                    let _ = call(|| c.remove_face(mk::<I>(*f)));
                }
            }
            let f = st.arg(2) % 4 == 0;
            if f {
                arm(st.arg(3) % 20);
            }
            let x = call_b(20_000_000, || match st.arg(1) % 3 {
                0 => {
                    c.loop_subdivision(&Lerp);
                }
                1 => {
                    c.subdivision_frequency(SubdivisionDescription::new(2, 0), Lerp);
                }
                _ => {
                    c.loop_subdivision(&LinearVertexInterpolator::<3> {});
                }
            });
            if f {
                disarm();
            }
            log.res(name, x);
            log.put("subdivide-result", snap_text::<I>(&c));
            // another round on the result: hash order shows in what later edits build upon
            log.put("subdivide-text", format!("{:016x}", hstr(&format!("{:?}", c.vertex_ids().map(ix).collect::<Vec<_>>()))));
        }
        "copies" => {
            let Res::Ok(c) = call(|| m.clone()) else { return };
            log.put("clone", snap_text::<I>(&c));
            let x = call(|| c.clone().flipped());
            if let Res::Ok(x) = &x {
                log.put("flipped", snap_text::<I>(x));
            }
            let x = call(|| c.clone().translated(&V3::new(1.0, 2.0, 3.0)));
            if let Res::Ok(x) = &x {
                log.put("translated", snap_text::<I>(x));
            }
            let mut c = c;
            let f = st.arg(2) % 3 == 0;
            if f {
                arm(st.arg(3) % 12);
            }
            let x = call(|| {
                c.insert_polygon((0..4).map(|k| VP::new(fresh_tag(), V3::new(k as f64, 0.0, 1.0))));
                c.insert_dihedron((0..3).map(|k| VP::new(fresh_tag(), V3::new(k as f64, 0.0, 2.0))));
            });
            if f {
                disarm();
            }
            log.res(name, x);
            log.put("edited-copy", snap_text::<I>(&c));
        }
        "text" => {
            let x = call(|| format!("{m:?}"));
            log.res(name, x);
        }
        _ => {
            let x = call(|| build::<I>(st.arg(1) % 14, st.arg(2), st.arg(3)));
            match x {
                Res::Ok(b) => log.put(name, snap_text::<I>(&b)),
                o => log.put(name, o.name().to_string()),
            }
        }
    }
}

/// Runs the scenario's steps; `salt` distinguishes the scripts of several threads.
fn play<I: Ix>(sc: &Scenario, salt: u64) -> (Log, Editor<I>) {
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, Want::default());
    let mut log = Log::default();
    let mut r = Rng::new(mix2(salt, 5));
    for st in &sc.steps {
        let mut st = st.clone();
        if salt > 0 {
            // another script: the same kinds of steps with other arguments
            if r.chance(1, 4) {
                continue;
            }
            let free = st.op.starts_with("do-") || st.op.starts_with("send-") || st.op == "obs";
            for a in st.a.iter_mut().take(if free { 3 } else { 0 }) {
                if r.chance(1, 3) {
                    *a = a.wrapping_add(r.below(4000) as u64);
                }
            }
        }
        intrude(0);
        if st.op == "obs" {
            observe::<I>(&ed.mesh, &st, &mut log);
            continue;
        }
        if poly_step(&mut ed, &st) {
        } else if let Err(v) = ed.step(&st) {
            log.put("violation", v.key);
            break;
        }
        log.put(&st.op, snap_text::<I>(&ed.mesh));
        if ed.dead {
            break;
        }
    }
    (log, ed)
}

struct Share<T>(T);
// the point is to find out what happens when it is shared
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

struct Out {
    log: Log,
    reads: u64,
}

/// Runs the bodies on fresh threads; with a baton they are interleaved by the seeded scheduler,
/// otherwise they run one after the other.
fn threads(
    bodies: Vec<(u64, Box<dyn FnOnce() -> Log + '_>)>,
    baton: Option<Arc<Baton>>,
) -> Result<Vec<Out>, Violation> {
    let mut outs = vec![];
    let body = |ent: u64, id: usize, b: Box<dyn FnOnce() -> Log + '_>, baton: Option<Arc<Baton>>| {
        set_entropy(ent);
        reset_ctx();
        if let Some(b) = &baton {
            b.enter(id);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
        set_intruder(None);
        if let Some(b) = &baton {
            b.leave(id);
        }
        (r.map_err(|_| last_panic()), events(), ticks(), entropy_reads())
    };
    let all: Vec<_> = if baton.is_some() {
        std::thread::scope(|s| {
            let hs: Vec<_> = bodies
                .into_iter()
                .enumerate()
                .map(|(i, (e, b))| {
                    let b = Share(b);
                    let bt = baton.clone();
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            let b = b;
                            body(e, i, b.0, bt)
                        })
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("join")).collect()
        })
    } else {
        bodies
            .into_iter()
            .enumerate()
            .map(|(i, (e, b))| {
                let b = Share(b);
                std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            let b = b;
                            body(e, i, b.0, None)
                        })
                        .expect("spawn")
                        .join()
                        .expect("join")
                })
            })
            .collect()
    };
    for (r, (ev, fi), t, reads) in all {
        absorb(&ev, &fi, t);
        match r {
            Ok(log) => outs.push(Out { log, reads }),
            Err(p) => return viol(format!("thread:panic:{}", class(&p)), p),
        }
    }
    Ok(outs)
}

/// Detects at compile time, without failing to compile, whether a type may be shared by threads.
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync {
    const SYNC: bool = false;
}
impl<T> NotSync for Probe<T> {}
impl<T: Sync + Send> Probe<T> {
    const SYNC: bool = true;
}
pub fn shareable() -> bool {
    Probe::<M<usize>>::SYNC && Probe::<M<u16>>::SYNC && Probe::<M<u8>>::SYNC
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mode = sc.p("mode");
    let ent = |k: u64| mix2(sc.entropy, 1000 + k);
    let sched = sc.p("sched") as u64;
    let script = |salt: u64| -> Box<dyn FnOnce() -> Log + '_> {
        Box::new(move || {
            let (mut l, ed) = play::<I>(sc, salt);
            l.put("end", snap_text::<I>(&ed.mesh));
            l
        })
    };
    let what;
    let mut logs = vec![];
    match mode {
        0 => {
            what = "with other entropy";
            let n = 3;
            let o = threads((0..n).map(|k| (ent(k), script(0))).collect(), None)?;
            let reads: u64 = o.iter().map(|o| o.reads).sum();
            stats.add("entropy-reads", reads);
            if reads >= n {
                stats.c("runs-whose-every-execution-drew-entropy");
            }
            for k in 1..o.len() {
                compare(what, &o[0].log, &o[k].log)?;
            }
            logs.extend(o.into_iter().map(|o| o.log));
        }
        1 => {
            what = "with other meshes in between";
            let inside = sc.p("inside") as u64;
            let noisy: Box<dyn FnOnce() -> Log + '_> = Box::new(move || {
                let mut other = M::<I>::new();
                let mut n = 0u64;
                set_intruder(Some((
                    sched,
                    inside,
                    Box::new(move || {
                        n += 1;
                        foreign::<I>(&mut other, mix2(sched, n));
                    }),
                )));
                let (mut l, ed) = play::<I>(sc, 0);
                l.put("end", snap_text::<I>(&ed.mesh));
                l
            });
            let o = threads(vec![(ent(0), script(0)), (ent(1), noisy)], None)?;
            compare(what, &o[0].log, &o[1].log)?;
            logs.extend(o.into_iter().map(|o| o.log));
        }
        2 => {
            what = "with other threads";
            let n = sc.p("threads").max(2) as usize;
            let alone = threads((0..n).map(|k| (ent(k as u64), script(k as u64))).collect(), None)?;
            let b = Baton::new(n, sched, sc.p("quantum").max(1) as usize);
            let o = threads((0..n).map(|k| (ent(50 + k as u64), script(k as u64))).collect(), Some(b.clone()))?;
            let (sw, h) = b.stats();
            stats.add("thread-switches", sw);
            stats.t(h);
            stats.state(h);
            for k in 0..n {
                compare(what, &alone[k].log, &o[k].log)?;
            }
            logs.extend(o.into_iter().map(|o| o.log));
        }
        _ => {
            what = "sharing the mesh with other threads";
            if !shareable() {
                return viol("share:not-sync", "a mesh of plain payloads cannot be shared between threads");
            }
            let n = sc.p("threads").max(2) as usize;
            let (_, ed) = play::<I>(sc, 0);
            let m = &ed.mesh;
            let before = snap_text::<I>(m);
            let obs: Vec<Step> = sc.steps.iter().filter(|s| s.op == "obs").cloned().collect();
            let reader = |k: usize| -> Box<dyn FnOnce() -> Log + '_> {
                let mut r = Rng::new(mix2(sched, k as u64));
                let mut mine = obs.clone();
                r.shuffle(&mut mine);
                if k % 2 == 1 {
                    for st in mine.iter_mut() {
                        st.a[0] = r.below(N_OBS as usize) as u64;
                    }
                }
                Box::new(move || {
                    let mut l = Log::default();
                    for st in &mine {
                        observe::<I>(m, st, &mut l);
                        yield_point();
                    }
                    l
                })
            };
            let alone = threads((0..n).map(|k| (ent(k as u64), reader(k))).collect(), None)?;
            if snap_text::<I>(m) != before {
                return viol("share:altered-alone", "reading altered the mesh");
            }
            let b = Baton::new(n, sched, sc.p("quantum").max(1) as usize);
            let o = threads((0..n).map(|k| (ent(50 + k as u64), reader(k))).collect(), Some(b.clone()))?;
            let (sw, h) = b.stats();
            stats.add("thread-switches", sw);
            stats.t(h);
            stats.state(h);
            for k in 0..n {
                compare(what, &alone[k].log, &o[k].log)?;
            }
            if snap_text::<I>(m) != before {
                return viol("share:altered", "reading from several threads altered the mesh");
            }
            logs.extend(o.into_iter().map(|o| o.log));
        }
    }
    stats.c(&format!("mode:{what}"));
    let mut n = 0;
    for l in &logs {
        n += l.0.len();
        for (k, _, _) in &l.0 {
            stats.c(&format!("observed:{k}"));
        }
        stats.t(l.hash());
        stats.state(l.hash());
    }
    if n > 6 {
        stats.c("nontrivial");
    }
    Ok(())
}

/// Work on an unrelated mesh, some of it failing.
fn foreign<I: Ix>(m: &mut M<I>, seed: u64) {
    let mut r = Rng::new(seed);
    if r.chance(1, 4) {
        arm(r.below(12) as u64);
    }
    let _ = call(|| match r.below(7) {
        0 => {
            *m = build::<I>(r.below(14) as u64, r.below(100) as u64, r.below(100) as u64);
        }
        1 => {
            m.insert_polygon((0..3 + r.below(5)).map(|k| VP::new(fresh_tag(), V3::new(k as f64, (k * k) as f64, 0.0))));
        }
        2 => {
            let f: Vec<I> = m.face_ids().collect();
            if let Some(f) = f.last() {
                m.remove_face(*f);
            }
        }
        3 => {
            m.clear();
        }
        4 => {
            let mut meta = TesselationMeta::default();
            let mut t = M::<I>::new();
            t.insert_polygon((0..6).map(|k| {
                let a = k as f64 / 6.0 * std::f64::consts::TAU;
                VP::new(fresh_tag(), V3::new(a.cos() * (1.0 + (k % 2) as f64), a.sin(), 0.0))
            }));
            let _ = t.triangulate(TriangulationAlgorithm::Sweep, &mut meta);
            let _ = t.triangulate(TriangulationAlgorithm::Delaunay, &mut meta);
        }
        5 => {
            let mut t = M::<I>::regular_tetrahedron(1.0);
            t.loop_subdivision(&Lerp);
            t.generate_smooth_normals();
            let _ = t.is_trivially_isomorphic(m);
        }
        _ => {
            m.flip();
        }
    });
    disarm();
}
