//! The editing system: one mesh, several clients with stale views, a request queue, saved clones.

use crate::env::*;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::scen::*;
use crate::snap::*;
use crate::types::*;
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;
use procedural_modelling::operations::*;
use procedural_modelling::primitives::*;
use std::collections::BTreeSet;

/// Which oracles are armed (one property per check).
#[derive(Clone, Copy, Default, Debug)]
pub struct Want {
    pub c01: bool,
    pub c02: bool,
    pub c03: bool,
    pub c04: bool,
}

pub struct Client {
    pub view: Snap,
}

pub struct Editor<I: Ix> {
    pub mesh: M<I>,
    pub cur: Snap,
    pub clients: Vec<Client>,
    pub queue: Vec<Req>,
    pub saved: Option<(M<I>, Snap, usize, [usize; 3])>,
    pub leaks: usize,
    /// no id of a vertex, edge, face was ever above these
    pub slots: [usize; 3],
    pub want: Want,
    pub stats: Stats,
    /// set when another property's violation made further simulation meaningless
    pub dead: bool,
    pub max_edges: usize,
    pub last: String,
    /// requests delivered, if wanted
    pub log: Option<Vec<Req>>,
}

pub const KINDS: [&str; 22] = [
    "add_vertex",      // 0
    "add_iso",         // 1
    "via_vertex",      // 2
    "via_edge",        // 3
    "between",         // 4
    "insert_edge",     // 5
    "close_face",      // 6
    "close_face_v",    // 7
    "close_hole",      // 8
    "remove_face",     // 9
    "split_edge",      // 10
    "path",            // 11
    "loop",            // 12
    "polygon",         // 13
    "dihedron",        // 14
    "flip_edge",       // 15
    "flip",            // 16
    "clear",           // 17
    "transform",       // 18
    "set_payload",     // 19
    "close_cycle",     // 20: close_face on a loop long enough to make a face with >= 3 edges
    "close_hole_face", // 21: close_hole on a loop of >= 3 edges whose twins mostly have faces
];

fn rand_pos(tag: u64) -> V3 {
    let mut r = Rng::new(tag);
    V3::new(
        r.range(-40, 40) as f64 / 4.0,
        r.range(-40, 40) as f64 / 4.0,
        r.range(-40, 40) as f64 / 4.0,
    )
}

pub fn new_vp() -> VPd {
    let t = fresh_tag();
    VPd::new(t, rand_pos(t))
}
pub fn new_ep() -> EPd {
    EPd::new(fresh_tag())
}
pub fn new_fp() -> FPd {
    FPd { tag: fresh_tag() }
}
fn ep2(d: bool) -> Option<(EPd, EPd)> {
    if d {
        None
    } else {
        Some((new_ep(), new_ep()))
    }
}
fn nth(xs: &[usize], a: u64) -> Option<usize> {
    if xs.is_empty() {
        None
    } else {
        Some(xs[(a % xs.len() as u64) as usize])
    }
}
/// any id, live or not
fn wild(ids: impl Iterator<Item = usize>, a: u64) -> usize {
    let v: Vec<usize> = ids.collect();
    let hi = v.last().map_or(2, |x| x + 4) as u64;
    if a % 7 == 6 {
        (a / 7 % hi) as usize
    } else {
        nth(&v, a / 7).unwrap_or((a % 5) as usize)
    }
}

/// Interprets (kind, args) in a client's view. `w` = wild: arbitrary, possibly invalid, handles.
pub fn build_req(kind: &str, a: &[u64], s: &Snap) -> Option<Req> {
    let g = |i: usize| a.get(i).copied().unwrap_or(0);
    let (x, y, z, flags) = (g(0), g(1), g(2), g(3));
    let w = flags & 1 == 1;
    let dflt = flags & 2 == 2;
    let curved = flags & 4 == 4;
    let bnd = || -> Vec<usize> { s.e.iter().filter(|(_, e)| e.face == NONE).map(|(i, _)| *i).collect() };
    let we = |q: u64| wild(s.e.keys().copied(), q);
    let wv = |q: u64| wild(s.v.keys().copied(), q);
    let attach = || -> Vec<usize> {
        s.v.keys()
            .copied()
            .filter(|v| s.v[v].edge == NONE || s.boundary_out(*v).len() == 1)
            .collect()
    };
    let cut = |x: u64, y: u64, min: usize| -> Option<(usize, usize)> {
        // a boundary half-edge and a second one on its loop such that an edge may be inserted
        let b = bnd();
        let n = b.len();
        for k in 0..n.min(12) {
            let inside = b[(x as usize + k) % n];
            let l = s.lp(inside);
            let v = s.target(inside);
            let c: Vec<usize> = (0..l.len())
                .filter(|j| {
                    let wv = s.target(l[*j]);
                    wv != v && s.between(v, wv).is_none() && l.len() - *j + 1 >= min
                })
                .map(|j| l[j])
                .collect();
            if let Some(o) = nth(&c, y) {
                return Some((inside, o));
            }
        }
        None
    };
    Some(match kind {
        "add_vertex" => Req::AddVertex { vp: new_vp() },
        "add_iso" => Req::AddIso { a: new_vp(), b: new_vp(), ep: ep2(dflt) },
        "via_vertex" => {
            let v = if w {
                wv(x)
            } else {
                let c: Vec<usize> = attach().into_iter().filter(|v| s.v[v].edge != NONE).collect();
                nth(&c, x)?
            };
            Req::ViaVertex { v, vp: new_vp(), ep: ep2(dflt) }
        }
        "via_edge" => {
            if w {
                let input = we(x);
                let output = match s.e.get(&input) {
                    Some(e) if y % 3 == 0 => e.next,
                    _ => we(y),
                };
                Req::ViaEdge { input, output, vp: new_vp(), ep: ep2(dflt) }
            } else {
                let o = nth(&bnd(), x)?;
                Req::ViaEdge { input: s.e[&o].prev, output: o, vp: new_vp(), ep: ep2(dflt) }
            }
        }
        "between" => {
            let ep = (new_ep(), new_ep());
            if w {
                Req::Between { v0: wv(x), v1: wv(y), ep }
            } else {
                let c = attach();
                let v0 = nth(&c, x)?;
                let c1: Vec<usize> =
                    c.iter().copied().filter(|v| *v != v0 && s.between(v0, *v).is_none()).collect();
                let v1 = nth(&c1, y)?;
                Req::Between { v0, v1, ep }
            }
        }
        "insert_edge" => {
            let ep = (new_ep(), new_ep());
            if w {
                Req::InsertEdge { inside: we(x), outside: we(y), ep }
            } else {
                let (inside, outside) = cut(x, y, 2)?;
                Req::InsertEdge { inside, outside, ep }
            }
        }
        "close_face" | "close_cycle" => {
            let ep = ep2(dflt);
            let fp = if dflt { FDEF } else { new_fp() };
            let (inside, outside) = if w && kind == "close_face" {
                (we(x), we(y))
            } else {
                cut(x, y, 3)?
            };
            Req::CloseFace { inside, outside, ep, fp, curved: curved && !w }
        }
        "close_face_v" => {
            let ep = ep2(dflt);
            let fp = if dflt { FDEF } else { new_fp() };
            let (prev, from, to) = if w {
                (wv(x), wv(y), wv(z))
            } else {
                let (i, o) = cut(x, y, 3)?;
                (s.e[&i].origin, s.target(i), s.target(o))
            };
            Req::CloseFaceV { prev, from, to, ep, fp, curved }
        }
        "close_hole" | "close_hole_face" => {
            let fp = if dflt { None } else { Some(new_fp()) };
            let e = if w && kind == "close_hole" {
                we(x)
            } else if kind == "close_hole_face" {
                let c: Vec<usize> = bnd().into_iter().filter(|e| s.lp(*e).len() >= 3).collect();
                nth(&c, x)?
            } else {
                nth(&bnd(), x)?
            };
            Req::CloseHole { e, fp, curved: curved && !dflt }
        }
        "remove_face" => {
            let f = if w {
                wild(s.f.keys().copied(), x)
            } else {
                let c: Vec<usize> = s.f.keys().copied().collect();
                nth(&c, x)?
            };
            Req::RemoveFace { f }
        }
        "split_edge" => {
            let e = if w {
                we(x)
            } else {
                let c: Vec<usize> = s.e.keys().copied().collect();
                nth(&c, x)?
            };
            let n = y % 5;
            Req::SplitEdge { e, items: (0..n).map(|_| (new_ep(), new_ep(), new_vp())).collect() }
        }
        "path" | "loop" | "polygon" | "dihedron" => {
            let n = if w { y % 4 } else { (if kind == "path" { 2 } else { 3 }) + y % 6 };
            let vps = (0..n).map(|_| new_vp()).collect();
            match kind {
                "path" => Req::Path { vps },
                "loop" => Req::Loop { vps },
                "polygon" => Req::Polygon { vps },
                _ => Req::Dihedron { vps },
            }
        }
        "flip_edge" => {
            let e = if w {
                we(x)
            } else {
                let c: Vec<usize> = s.e.keys().copied().collect();
                nth(&c, x)?
            };
            Req::FlipEdge { e }
        }
        "flip" => Req::Flip,
        "clear" => Req::Clear,
        "transform" => {
            let q = |k: u64| (k % 17) as f64 / 2.0 - 4.0;
            Req::Transform(match z % 4 {
                0 => Tf::Translate([q(x), q(y), q(x + y)]),
                1 => Tf::Scale([q(x) + 5.0, q(y) + 5.0, 1.5]),
                2 => Tf::RotZ(q(x) * 0.3 + 0.1),
                _ => Tf::Affine([q(x) + 5.0, 0.5, 2.0], [q(y), 1.0, q(x)]),
            })
        }
        "set_payload" => Req::SetPayload { tag: fresh_tag() },
        _ => return None,
    })
}

/// A caller's stream: counts pulls, reports each to the fault seam, lies about its size on demand,
/// goes on after its end (unfused), or edits another mesh whenever it is asked for an element.
pub struct Stream<T> {
    pub items: std::vec::IntoIter<T>,
    pub pulled: std::rc::Rc<std::cell::Cell<usize>>,
    pub hint: u64,
    /// what an unfused stream yields when it is asked again after its end
    pub extra: Option<T>,
    pub ended: bool,
}
thread_local! {
    static SIDE: std::cell::RefCell<Option<Box<dyn FnMut()>>> = const { std::cell::RefCell::new(None) };
}
/// Installs what streams do to other meshes while they are pulled.
pub fn set_side(f: Option<Box<dyn FnMut()>>) {
    SIDE.with(|s| *s.borrow_mut() = f);
}
impl<T> Iterator for Stream<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        event(Ev::Stream, self.pulled.get() as u64);
        if let Some(mut f) = SIDE.with(|s| s.borrow_mut().take()) {
            f();
            set_side(Some(f));
        }
        if self.ended {
            let r = self.extra.take();
            if r.is_some() {
                self.pulled.set(self.pulled.get() + 1);
            }
            return r;
        }
        let r = self.items.next();
        if r.is_some() {
            self.pulled.set(self.pulled.get() + 1);
        } else {
            self.ended = true;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint % 5 {
            0 => (0, None),
            1 => (n, Some(n)),
            2 => (0, Some(n + 3)),
            3 => (n.saturating_sub(1), None),
            _ => (0, Some(usize::MAX)),
        }
    }
}

pub type Pulls = std::rc::Rc<std::cell::Cell<usize>>;
/// `hint`: size hint (mod 5) and behaviour (div 5 mod 3: plain, unfused, edits a side mesh)
pub fn stream<T>(items: Vec<T>, hint: u64, pulled: Pulls, junk: impl FnOnce() -> T) -> Stream<T> {
    Stream {
        items: items.into_iter(),
        pulled,
        hint,
        extra: if hint / 5 % 3 == 1 { Some(junk()) } else { None },
        ended: false,
    }
}

/// The n-th thing a stream does to the side mesh.
pub fn side_op<I: Ix>(m: &mut M<I>, n: u64) {
    let vp = |k: u64| VP::new((1 << 40) + n * 8 + k, V3::new(k as f64, n as f64, (k * k) as f64));
    if m.num_edges() > 150 {
        m.clear();
    }
    match n % 4 {
        0 => {
            m.insert_polygon((0..3 + n % 3).map(vp));
        }
        1 => {
            let e = m.insert_loop((0..3).map(vp));
            m.loft_tri_closed(e, (3..6).map(vp));
        }
        2 => {
            let (e, _) = MeshBuilder::insert_path(m, (0..3).map(vp));
            m.insert_vertices_into_edge(e, (3..5).map(|k| (EP::new(n), EP::new(n + 1), vp(k))));
        }
        _ => {
            let e = m.insert_loop((0..4).map(vp));
            m.fill_hole_apex(e, vp(4));
        }
    }
}

/// A mesh of its own that streams edit while the mesh under test pulls them.
pub struct SideMesh<I: Ix>(std::rc::Rc<std::cell::RefCell<(M<I>, u64)>>);
impl<I: Ix> SideMesh<I> {
    pub fn start() -> Self {
        let r = std::rc::Rc::new(std::cell::RefCell::new((M::<I>::new(), 0)));
        let q = r.clone();
        set_side(Some(Box::new(move || {
            let mut g = q.borrow_mut();
            let (m, n) = &mut *g;
            side_op(m, *n);
            *n += 1;
        })));
        SideMesh(r)
    }
    /// After the pulls: the side mesh must be what the same edits give on their own.
    pub fn finish(self) -> Result<u64, String> {
        set_side(None);
        let g = self.0.borrow();
        let (m, n) = &*g;
        let alone = call(|| {
            let mut a = M::<I>::new();
            for k in 0..*n {
                side_op(&mut a, k);
            }
            a
        });
        let Res::Ok(alone) = alone else { return Ok(*n) };
        let (x, y) = (snapshot::<I>(&alone), snapshot::<I>(m)?);
        match diff(&x?, &y) {
            None => Ok(*n),
            Some(d) => Err(format!("a mesh edited from within the stream differs from the same edits alone: {d}")),
        }
    }
}

pub fn perform<I: Ix>(m: &mut M<I>, r: &Req, hint: u64, pulled: &mut usize) -> Ret {
    let v = |i: usize| mk::<I>(i);
    let cnt = std::rc::Rc::new(std::cell::Cell::new(0));
    struct Report<'a>(std::rc::Rc<std::cell::Cell<usize>>, &'a mut usize);
    impl Drop for Report<'_> {
        fn drop(&mut self) {
            *self.1 = self.0.get();
        }
    }
    let _rep = Report(cnt.clone(), pulled);
    macro_rules! st {
        ($items:expr, $junk:expr) => {
            stream($items, hint, cnt.clone(), || $junk)
        };
    }
    let junk = || VP(new_vp());
    match r {
        Req::AddVertex { vp } => Ret::V(ix(m.add_vertex(VP(*vp)))),
        Req::AddIso { a, b, ep } => {
            let (x, y) = match ep {
                Some((p, q)) => m.add_isolated_edge(VP(*a), EP(*p), VP(*b), EP(*q)),
                None => m.add_isolated_edge_default(VP(*a), VP(*b)),
            };
            Ret::VV(ix(x), ix(y))
        }
        Req::ViaVertex { v: w, vp, ep } => {
            let (x, y, z) = match ep {
                Some((p, q)) => m.add_vertex_via_vertex(v(*w), VP(*vp), EP(*p), EP(*q)),
                None => m.add_vertex_via_vertex_default(v(*w), VP(*vp)),
            };
            Ret::VEE(ix(x), ix(y), ix(z))
        }
        Req::ViaEdge { input, output, vp, ep } => {
            let (x, y, z) = match ep {
                Some((p, q)) => {
                    m.add_vertex_via_edge(v(*input), v(*output), VP(*vp), EP(*p), EP(*q))
                }
                None => m.add_vertex_via_edge_default(v(*input), v(*output), VP(*vp)),
            };
            Ret::VEE(ix(x), ix(y), ix(z))
        }
        Req::Between { v0, v1, ep } => {
            let (x, y) = m.insert_edge_between(v(*v0), EP(ep.0), v(*v1), EP(ep.1));
            Ret::EE(ix(x), ix(y))
        }
        Req::InsertEdge { inside, outside, ep } => {
            let (x, y) = m.insert_edge(v(*inside), EP(ep.0), v(*outside), EP(ep.1));
            Ret::EE(ix(x), ix(y))
        }
        Req::CloseFace { inside, outside, ep, fp, curved } => {
            let (f, x, y) = match ep {
                Some((p, q)) => {
                    m.close_face(v(*inside), EP(*p), v(*outside), EP(*q), FP(*fp), *curved)
                }
                None => m.close_face_default(v(*inside), v(*outside), *curved),
            };
            Ret::FEE(ix(f), ix(x), ix(y))
        }
        Req::CloseFaceV { prev, from, to, ep, fp, curved } => {
            let (f, x, y) = match ep {
                Some((p, q)) => m.close_face_vertices(
                    v(*prev), EP(*p), v(*from), EP(*q), v(*to), FP(*fp), *curved,
                ),
                None => m.close_face_vertices_default(v(*prev), v(*from), v(*to), *curved),
            };
            Ret::FEE(ix(f), ix(x), ix(y))
        }
        Req::CloseHole { e, fp, curved } => Ret::F(ix(match fp {
            Some(p) => m.close_hole(v(*e), FP(*p), *curved),
            None => m.close_hole_default(v(*e)),
        })),
        Req::RemoveFace { f } => Ret::Payload(m.remove_face(v(*f)).0.tag),
        Req::SplitEdge { e, items } => {
            let it: Vec<_> = items.iter().map(|(a, b, c)| (EP(*a), EP(*b), VP(*c))).collect();
            Ret::E(ix(m.insert_vertices_into_edge(v(*e), st!(it, (EP(new_ep()), EP(new_ep()), junk())))))
        }
        Req::Path { vps } => {
            let it: Vec<_> = vps.iter().map(|x| VP(*x)).collect();
            let (x, y) = MeshBuilder::insert_path(m, st!(it, junk()));
            Ret::EE(ix(x), ix(y))
        }
        Req::Loop { vps } => {
            let it: Vec<_> = vps.iter().map(|x| VP(*x)).collect();
            Ret::E(ix(m.insert_loop(st!(it, junk()))))
        }
        Req::Polygon { vps } => {
            let it: Vec<_> = vps.iter().map(|x| VP(*x)).collect();
            Ret::E(ix(m.insert_polygon(st!(it, junk()))))
        }
        Req::Dihedron { vps } => {
            let it: Vec<_> = vps.iter().map(|x| VP(*x)).collect();
            Ret::E(ix(m.insert_dihedron(st!(it, junk()))))
        }
        Req::FlipEdge { e } => {
            m.flip_edge(v(*e));
            Ret::None
        }
        Req::Flip => {
            m.flip();
            Ret::None
        }
        Req::Clear => {
            m.clear();
            Ret::None
        }
        Req::Transform(t) => {
            match t {
                Tf::Translate(a) => m.translate(&V3::new(a[0], a[1], a[2])),
                Tf::Scale(a) => m.scale(&V3::new(a[0], a[1], a[2])),
                Tf::RotZ(a) => m.rotate(&NdRotate::from_axis_angle(V3::z_axis(), *a)),
                Tf::Affine(..) => m.transform(&tf_aff(t)),
            };
            Ret::None
        }
        Req::SetPayload { tag } => {
            m.set_payload(MP(FPd { tag: *tag }));
            Ret::None
        }
    }
}

/// What happened to one delivered request.
pub enum Done {
    Skipped,
    Applied,
    Refused,
    Aborted,
}

impl<I: Ix> Editor<I> {
    pub fn new(nclients: usize, want: Want) -> Self {
        let mesh = M::<I>::new();
        let cur = snapshot::<I>(&mesh).unwrap_or_default();
        Editor {
            clients: (0..nclients.max(1)).map(|_| Client { view: cur.clone() }).collect(),
            cur,
            mesh,
            queue: vec![],
            saved: None,
            leaks: 0,
            slots: [0; 3],
            want,
            stats: Stats::default(),
            dead: false,
            max_edges: 140,
            last: String::new(),
            log: None,
        }
    }

    /// Applies one request under an optional armed fault; checks the armed oracles.
    pub fn deliver(&mut self, req: &Req, fault: Option<u64>, hint: u64, probe: u64) -> Result<Done, Violation> {
        let name = req.name();
        let before = self.cur.clone();
        let pred = predict(&before, req, I::CAP);
        if let Pred::Unspec(_) = pred {
            self.stats.c("requests-skipped-unspecified");
            return Ok(Done::Skipped);
        }
        if before.e.len() > self.max_edges && !matches!(req, Req::RemoveFace { .. } | Req::CloseHole { .. } | Req::Flip | Req::FlipEdge { .. } | Req::Clear) && I::CAP > 1000 {
            self.stats.c("requests-skipped-size");
            return Ok(Done::Skipped);
        }
        self.last = format!("{req:?}");
        if let Some(l) = self.log.as_mut() {
            l.push(req.clone());
        }
        let w = self.want;
        if let Some(k) = fault {
            arm(k);
        }
        let mut pulled = 0usize;
        let mesh = &mut self.mesh;
        let side = (hint / 5 % 3 == 2 && req.is_stream()).then(SideMesh::<I>::start);
        let res = call(|| perform(mesh, req, hint, &mut pulled));
        let fired = fault.is_some() && !disarm();
        if let Some(side) = side {
            set_side(None);
            if !fired && w.c04 {
                match side.finish() {
                    Ok(n) => self.stats.add("side-mesh-edits", n),
                    Err(m) => return viol(format!("{name}:side-mesh"), format!("{req:?}: {m}")),
                }
            }
        }
        self.stats.c("requests-delivered");
        self.stats.c(&format!("op:{name}"));
        let after = match snapshot::<I>(&self.mesh) {
            Ok(s) => s,
            Err(m) => {
                self.dead = true;
                if self.want.c01 || (self.want.c03 && (fired || !matches!(res, Res::Ok(_)))) {
                    return viol(format!("{name}:unreadable"), m);
                }
                return Ok(Done::Skipped);
            }
        };
        self.stats.t(after.hash());
        self.stats.t(crate::rng::hstr(res.name()));
        let wf = integrity(&after);
        self.stats.c(&format!("result:{}", res.name()));
        if let (Err(m), true) = (&wf, w.c01) {
            return viol(
                format!("{name}:integrity:{}", class(m)),
                format!("after {req:?} ({}): {m}", res.name()),
            );
        }
        let mut out = Done::Applied;
        match (&pred, &res) {
            (_, Res::Budget) => {
                self.dead = true;
                if w.c02 || w.c03 || w.c04 {
                    return viol(format!("{name}:nontermination"), format!("{req:?} does not terminate"));
                }
            }
            (_, Res::Injected) => {
                out = Done::Aborted;
                self.stats.c("aborted-by-fault");
                self.leaks += 8;
                if w.c03 || w.c04 {
                    if let Err(m) = &wf {
                        return viol(
                            format!("{name}:abort-integrity:{}", class(m)),
                            format!("fault {fault:?} inside {req:?}: {m}"),
                        );
                    }
                    // the fault may strike before the index type is exhausted
                    let capless = predict(&before, req, usize::MAX);
                    if let Err(m) = self.abort_ok(&before, &after, &capless, req) {
                        return viol(
                            format!("{name}:abort-effect:{}", class(&m)),
                            format!("fault {fault:?} inside {req:?}: {m}"),
                        );
                    }
                }
            }
            (Pred::Ok(exp, ret), Res::Ok(got)) => {
                if fired && (w.c02 || w.c03) {
                    return viol(
                        format!("{name}:fault-swallowed"),
                        format!("a panic of caller code inside {req:?} did not propagate"),
                    );
                }
                if w.c02 || w.c04 && req.is_stream() {
                    match bind(exp, &before, &after) {
                        Err(m) => {
                            return viol(format!("{name}:effect:{}", class(&m)), format!("{req:?}: {m}"))
                        }
                        Ok((e, mv, me, mf)) => {
                            if let Some(m) = diff(&e, &after) {
                                return viol(
                                    format!("{name}:effect:{}", class(&m)),
                                    format!("{req:?}: {m}"),
                                );
                            }
                            // ids that became free are used before further ones
                            let (b, a) = (slots_of(&before), slots_of(&after));
                            let n = [before.v.len().max(after.v.len()), before.e.len().max(after.e.len()), before.f.len().max(after.f.len())];
                            for k in 0..3 {
                                if a[k] > self.slots[k].max(b[k]).max(n[k] + self.leaks) {
                                    return viol(
                                        format!("{name}:ids-not-reused"),
                                        format!("{req:?}: {} {} need ids up to {}", n[k], ["vertices", "edges", "faces"][k], a[k] - 1),
                                    );
                                }
                            }
                            let er = bind_ret(ret, &mv, &me, &mf);
                            if er != *got {
                                return viol(
                                    format!("{name}:handle"),
                                    format!("{req:?}: returned {got:?}, expected {er:?}"),
                                );
                            }
                        }
                    }
                }
                if w.c04 && req.is_stream() {
                    let n = stream_len(req);
                    if pulled != n {
                        return viol(
                            format!("{name}:pulls"),
                            format!("{req:?}: pulled {pulled} of {n} stream elements"),
                        );
                    }
                }
            }
            (Pred::Ok(exp, _), Res::Panic(m)) => {
                out = Done::Refused;
                let may = self.leaks > 0
                    && I::CAP < 1000
                    && (exp.v.len().max(exp.e.len()).max(exp.f.len()) + self.leaks > I::CAP);
                if may {
                    self.stats.c("refused-exhausted-after-leak");
                    if w.c03 && !req.is_stream() {
                        self.refused_ok(&before, &after, req, &wf)?;
                    }
                } else if w.c02 || w.c04 && req.is_stream() {
                    return viol(
                        format!("{name}:valid-request-panicked"),
                        format!("{req:?} panicked: {m}"),
                    );
                } else if wf.is_err() {
                    self.dead = true;
                }
            }
            (Pred::Reject(why), Res::Ok(_)) => {
                if w.c03 {
                    return viol(
                        format!("{name}:accepted:{}", class(why)),
                        format!("invalid request ({why}) was accepted: {req:?}"),
                    );
                }
                if wf.is_err() {
                    self.dead = true;
                }
            }
            (Pred::Reject(why), Res::Panic(_)) => {
                out = Done::Refused;
                self.stats.c("refused-invalid");
                self.stats.c(&format!("refused:{why}"));
                if *why == "index type exhausted" {
                    // ids reserved before the refusal stay reserved (the arena documents this)
                    self.leaks += 4;
                }
                if w.c03 {
                    self.refused_ok(&before, &after, req, &wf)?;
                }
            }
            (Pred::Partial(why), Res::Ok(_)) => {
                if w.c03 || w.c04 {
                    return viol(
                        format!("{name}:accepted:{}", class(why)),
                        format!("invalid request ({why}) was accepted: {req:?}"),
                    );
                }
            }
            (Pred::Partial(why), Res::Panic(_)) => {
                out = Done::Refused;
                self.leaks += 8;
                self.stats.c(&format!("refused:{why}"));
                if w.c03 || w.c04 {
                    if let Err(m) = &wf {
                        return viol(
                            format!("{name}:abort-integrity:{}", class(m)),
                            format!("{why}: {req:?}: {m}"),
                        );
                    }
                    let capless = predict(&before, req, usize::MAX);
                    if let Err(m) = self.abort_ok(&before, &after, &capless, req) {
                        return viol(
                            format!("{name}:abort-effect:{}", class(&m)),
                            format!("{why}: {req:?}: {m}"),
                        );
                    }
                }
            }
            (Pred::Unspec(_), _) => unreachable!(),
        }
        for (k, (b, a)) in slots_of(&before).into_iter().zip(slots_of(&after)).enumerate() {
            self.slots[k] = self.slots[k].max(b).max(a);
        }
        if wf.is_err() {
            self.dead = true;
        }
        if !self.dead && (w.c01 || (w.c03 && !matches!(res, Res::Ok(_)))) {
            if let Err(m) = api_agreement::<I>(&self.mesh, &after, probe) {
                return viol(format!("{name}:api:{}", class(&m)), format!("after {req:?}: {m}"));
            }
        }
        if !self.dead && w.c01 && check_applies(&after) && !after.e.is_empty() {
            self.stats.c("checker-accepts-asserted");
            match call(|| self.mesh.check()) {
                Res::Ok(Ok(())) => {}
                Res::Ok(Err(m)) => {
                    return viol("check:rejected", format!("check() rejects a sound mesh: {m}"))
                }
                o => return viol("check:failed", format!("check() failed on a sound mesh: {o:?}")),
            }
        }
        if !self.dead {
            self.stats.state(after.shape_hash());
        }
        self.cur = after;
        Ok(out)
    }

    fn refused_ok(&self, before: &Snap, after: &Snap, req: &Req, wf: &Result<(), String>) -> Result<(), Violation> {
        let name = req.name();
        if let Err(m) = wf {
            return viol(
                format!("{name}:refuse-integrity:{}", class(m)),
                format!("refused {req:?} but: {m}"),
            );
        }
        if let Some(m) = diff(before, after) {
            return viol(
                format!("{name}:refuse-effect:{}", class(&m)),
                format!("refused {req:?} but: {m}"),
            );
        }
        Ok(())
    }

    /// After an abort: nothing outside the request's footprint may have changed.
    fn abort_ok(&self, before: &Snap, after: &Snap, pred: &Pred, req: &Req) -> Result<(), String> {
        let tags: BTreeSet<u64> = req.tags().into_iter().collect();
        let full: Option<&Snap> = match pred {
            Pred::Ok(s, _) => Some(s),
            _ => None,
        };
        if matches!(req, Req::Transform(_)) {
            // payloads may be transformed in part; connectivity and identity must survive
            let a = match req {
                Req::Transform(t) => tf_aff(t),
                _ => unreachable!(),
            };
            let t = transform_snap(before, &a);
            let mut x = after.clone();
            for (i, v) in x.v.iter_mut() {
                let Some(b) = before.v.get(i) else { return Err(format!("unexpected vertex {i}")) };
                if v.p.bits() != b.p.bits() && v.p.bits() != t.v[i].p.bits() {
                    return Err(format!("vertex {i}: payload neither old nor transformed"));
                }
                v.p = b.p;
            }
            for (i, v) in x.e.iter_mut() {
                let Some(b) = before.e.get(i) else { return Err(format!("unexpected edge {i}")) };
                if v.p != b.p && v.p != t.e[i].p {
                    return Err(format!("edge {i}: payload neither old nor transformed"));
                }
                v.p = b.p;
            }
            for (i, v) in x.f.iter_mut() {
                let Some(b) = before.f.get(i) else { return Err(format!("unexpected face {i}")) };
                if v.p != b.p && v.p != t.f[i].p {
                    return Err(format!("face {i}: payload neither old nor transformed"));
                }
                v.p = b.p;
            }
            if x.mp != before.mp && x.mp != t.mp {
                return Err("mesh payload neither old nor transformed".into());
            }
            x.mp = before.mp;
            return match diff(before, &x) {
                Some(m) => Err(m),
                None => Ok(()),
            };
        }
        for (i, v) in &before.v {
            let Some(a) = after.v.get(i) else {
                return Err(format!("vertex {i} vanished"));
            };
            if a.p.bits() != v.p.bits() {
                return Err(format!("vertex {i}: payload changed"));
            }
        }
        for (i, e) in &before.e {
            let Some(a) = after.e.get(i) else {
                return Err(format!("edge {i} vanished"));
            };
            if a.p != e.p {
                return Err(format!("edge {i}: payload changed"));
            }
            let named = match full.and_then(|f| f.e.get(i)) {
                Some(f) => {
                    f.next != e.next || f.prev != e.prev || f.origin != e.origin || f.face != e.face
                }
                None => false,
            };
            if !named && (a.next, a.prev, a.twin, a.origin, a.face) != (e.next, e.prev, e.twin, e.origin, e.face) {
                return Err(format!("edge {i}: links changed"));
            }
        }
        for (i, f) in &before.f {
            let Some(a) = after.f.get(i) else {
                if matches!(req, Req::RemoveFace { f } if f == i) {
                    continue;
                }
                return Err(format!("face {i} vanished"));
            };
            if a.p != f.p || a.curved != f.curved {
                return Err(format!("face {i}: payload changed"));
            }
        }
        for (i, v) in &after.v {
            if !before.v.contains_key(i) && !tags.contains(&v.p.tag) {
                return Err(format!("new vertex {i} has a payload nobody supplied"));
            }
        }
        for (i, e) in &after.e {
            if !before.e.contains_key(i) && !tags.contains(&e.p.tag) && e.p.tag != DEFAULT {
                return Err(format!("new edge {i} has a payload nobody supplied"));
            }
        }
        for (i, f) in &after.f {
            if !before.f.contains_key(i) && !tags.contains(&f.p.tag) && f.p.tag != DEFAULT {
                return Err(format!("new face {i} has a payload nobody supplied"));
            }
        }
        Ok(())
    }

    /// Executes one scenario step. Unknown ops are left to the caller (returns false).
    pub fn step(&mut self, st: &Step) -> Result<bool, Violation> {
        let op = st.op.as_str();
        let a = &st.a;
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        if let Some(k) = op.strip_prefix("do-") {
            // do-KIND x y z flags client fault hint
            if !KINDS.contains(&k) {
                return Ok(false);
            }
            let c = (g(4) % self.clients.len() as u64) as usize;
            self.clients[c].view = self.cur.clone();
            if let Some(r) = build_req(k, a, &self.cur) {
                let fault = g(5).checked_sub(1);
                self.deliver(&r, fault, g(6), g(0) ^ g(1))?;
            }
            return Ok(true);
        }
        if let Some(k) = op.strip_prefix("send-") {
            if !KINDS.contains(&k) {
                return Ok(false);
            }
            let c = (g(4) % self.clients.len() as u64) as usize;
            if let Some(r) = build_req(k, a, &self.clients[c].view) {
                self.stats.c("requests-sent");
                self.queue.push(r);
            }
            return Ok(true);
        }
        match op {
            "look" => {
                let c = (g(0) % self.clients.len() as u64) as usize;
                self.clients[c].view = self.cur.clone();
            }
            "deliver" => {
                if !self.queue.is_empty() {
                    let i = (g(0) % self.queue.len() as u64) as usize;
                    if i != 0 {
                        self.stats.c("fault:reorder");
                    }
                    let r = self.queue.remove(i);
                    self.deliver(&r, g(1).checked_sub(1), g(2), g(0))?;
                }
            }
            "drop" => {
                if !self.queue.is_empty() {
                    let i = (g(0) % self.queue.len() as u64) as usize;
                    self.queue.remove(i);
                    self.stats.c("fault:loss");
                }
            }
            "dup" => {
                if !self.queue.is_empty() {
                    let i = (g(0) % self.queue.len() as u64) as usize;
                    let r = self.queue[i].clone();
                    self.queue.push(r);
                    self.stats.c("fault:duplication");
                }
            }
            "fill" => {
                // a small index type close to exhaustion
                let rem = (g(0) % 24) as usize;
                if I::CAP > 1000 {
                    return Ok(true);
                }
                for k in 0..200u64 {
                    let (nv, ne) = (self.cur.v.len() + self.leaks, self.cur.e.len() + self.leaks);
                    let vertices_first = g(0) / 24 % 4 == 3 || nv >= ne && g(0) / 24 % 4 == 2;
                    let req = if vertices_first {
                        if nv + rem >= I::CAP {
                            break;
                        }
                        Req::AddVertex { vp: new_vp() }
                    } else {
                        let n = ((I::CAP.saturating_sub(rem + ne)) / 2).min(3 + ((g(1) + k) % 28) as usize);
                        if n < 3 {
                            break;
                        }
                        let vps = (0..n).map(|_| new_vp()).collect();
                        match (g(1) + k) % 3 {
                            0 => Req::Loop { vps },
                            1 => Req::Polygon { vps },
                            _ => Req::Dihedron { vps },
                        }
                    };
                    self.deliver(&req, None, g(1) % 5, k)?;
                    if self.dead {
                        break;
                    }
                }
                self.stats.c("filled-to-capacity");
            }
            "build" => {
                // starting meshes come from the crate's own constructors; a failure ends the run
                match call(|| build::<I>(g(0), g(1), g(2))) {
                    Res::Ok(m) => {
                        self.mesh = m;
                        self.leaks = 0;
                        self.stats.c("built-solids");
                        match snapshot::<I>(&self.mesh) {
                            Ok(s) if integrity(&s).is_ok() => {
                                self.max_edges = self.max_edges.max(s.e.len() + 60);
                                self.slots = slots_of(&s).map(|x| x + 8);
                                self.cur = s;
                                self.stats.state(self.cur.shape_hash());
                            }
                            _ => {
                                if self.want.c01 {
                                    return viol("build:integrity", format!("constructor {} yields a malformed mesh", g(0) % 14));
                                }
                                self.dead = true;
                            }
                        }
                    }
                    _ => {
                        self.stats.c(&format!("build-failed:{}", g(0) % 14));
                        self.dead = true
                    }
                }
            }
            "save" => {
                let m = &self.mesh;
                if let Res::Ok(c) = call(|| m.clone()) {
                    self.saved = Some((c, self.cur.clone(), self.leaks, self.slots));
                    self.stats.c("saves");
                }
            }
            "crash" => {
                self.stats.c("fault:crash-restore");
                self.queue.clear();
                match self.saved.take() {
                    Some((m, s, l, k)) => {
                        let c = match call(|| m.clone()) {
                            Res::Ok(c) => c,
                            _ => return Ok(true),
                        };
                        self.mesh = m;
                        self.leaks = l;
                        self.slots = k;
                        let now = snapshot::<I>(&self.mesh);
                        if self.want.c01 || self.want.c02 {
                            match now {
                                Ok(n) => {
                                    if let Some(d) = diff(&s, &n) {
                                        return viol(
                                            "restore:differs",
                                            format!("a saved clone changed while another mesh was edited: {d}"),
                                        );
                                    }
                                }
                                Err(d) => return viol("restore:unreadable", d),
                            }
                        }
                        self.cur = s.clone();
                        self.saved = Some((c, s, l, k));
                    }
                    None => {
                        self.mesh = M::<I>::new();
                        self.cur = snapshot::<I>(&self.mesh).unwrap_or_default();
                        self.leaks = 0;
                        self.slots = [0; 3];
                    }
                }
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}

pub fn stream_len(r: &Req) -> usize {
    match r {
        Req::SplitEdge { items, .. } => items.len(),
        Req::Path { vps } | Req::Loop { vps } | Req::Polygon { vps } | Req::Dihedron { vps } => vps.len(),
        _ => 0,
    }
}

/// Strips numbers so that a message becomes a stable failure class.
pub fn class(m: &str) -> String {
    let mut o = String::new();
    for w in m.split_whitespace().take(7) {
        if w.chars().any(|c| c.is_ascii_digit()) {
            continue;
        }
        let w: String = w.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        if w.is_empty() {
            continue;
        }
        if !o.is_empty() {
            o.push('-');
        }
        o += &w;
    }
    o
}

/// Generates an editing history: swarm-weighted kinds, stale clients, message and call-back faults.
pub fn gen_history(r: &mut Rng, sc: &mut Scenario, len: usize, faults: bool, wildness: usize) {
    // swarm: each run prefers its own mix of operations
    let base: [u32; 22] = [3, 4, 8, 8, 6, 6, 5, 5, 4, 4, 4, 2, 2, 3, 1, 2, 1, 0, 2, 1, 12, 10];
    let mut w: Vec<u32> = base
        .iter()
        .map(|b| if r.chance(1, 4) { 0 } else { b * (1 + r.below(4) as u32) })
        .collect();
    if r.chance(1, 6) {
        w[17] = 1;
    }
    w[2] += 1;
    w[13] += 1;
    w[20] += 1;
    let clients = 1 + r.below(4);
    sc.set("clients", clients as i64);
    let asynch = r.below(60);
    let fault_rate = if faults { 5 + r.below(25) } else { 0 };
    let built = r.chance(1, 4);
    if built {
        sc.push("build", &[r.below(14) as u64, r.below(1000) as u64, r.below(1000) as u64]);
    }
    let seeds = if built { r.below(2) } else { 1 + r.below(3) };
    for _ in 0..seeds {
        let k = *r.pick(&["do-polygon", "do-add_iso", "do-loop", "do-path", "do-polygon"]);
        sc.push(k, &[0, r.below(6) as u64, 0, 0, 0, 0, r.below(5) as u64]);
    }
    for _ in 0..len {
        let k = KINDS[r.weighted(&w)];
        let mut flags = (r.below(4) as u64) * 2;
        if r.below(100) < wildness {
            flags |= 1;
        }
        let mut a = vec![
            r.below(4000) as u64,
            r.below(4000) as u64,
            r.below(4000) as u64,
            flags,
            r.below(clients) as u64,
        ];
        if r.below(100) < asynch {
            match r.below(9) {
                0 | 1 | 2 => sc.push(&format!("send-{k}"), &a),
                3 | 4 | 5 => {
                    let f = if r.below(100) < fault_rate { 1 + r.below(9) as u64 } else { 0 };
                    sc.push("deliver", &[r.below(6) as u64, f, r.below(5) as u64])
                }
                6 => sc.push("look", &[r.below(clients) as u64]),
                7 => sc.push(if r.chance(1, 2) { "drop" } else { "dup" }, &[r.below(6) as u64]),
                _ => sc.push(
                    if r.chance(2, 3) { "save" } else { "crash" },
                    &[],
                ),
            }
        } else {
            a.push(if r.below(100) < fault_rate { 1 + r.below(9) as u64 } else { 0 });
            a.push(r.below(5) as u64);
            sc.push(&format!("do-{k}"), &a);
        }
    }
    let _ = mix;
}

/// Starting meshes that histories of single edits rarely reach: solids, strips, big polygons.
pub fn build<I: Ix>(kind: u64, a: u64, b: u64) -> M<I> {
    let ring = |n: usize, r: f64, z: f64| -> Vec<VP> {
        (0..n)
            .map(|k| {
                let t = k as f64 / n as f64 * std::f64::consts::TAU;
                VP::new(fresh_tag(), V3::new(r * t.cos(), r * t.sin(), z))
            })
            .collect()
    };
    let n = 3 + (a % 9) as usize;
    let big = if I::CAP < 1000 { 40 } else { 130 };
    match kind % 14 {
        0 => M::<I>::cuboid(V3::new(1.0 + (a % 3) as f64, 2.0, 3.0)),
        1 => M::<I>::regular_icosahedron(1.0),
        2 => M::<I>::regular_tetrahedron(1.0),
        3 => M::<I>::regular_octahedron(1.0),
        4 => M::<I>::dodecahedron(1.0),
        5 => M::<I>::uv_sphere(2.0, 2 + (a % 3) as usize, 3 + (b % 5) as usize),
        6 => M::<I>::regular_prism(1.0, 2.0, n),
        7 => M::<I>::regular_antiprism(1.0, 2.0, n),
        8 => M::<I>::regular_pyramid(1.0, 2.0, n),
        9 => {
            // a big polygon
            let mut m = M::<I>::new();
            m.insert_polygon(ring(20 + (a % big) as usize, 10.0, 0.0));
            m
        }
        10 => {
            // a fan of triangles around one vertex
            let mut m = M::<I>::new();
            let k = 3 + (a % if I::CAP < 1000 { 12 } else { 40 }) as usize;
            let e = m.insert_loop(ring(k, 5.0, 0.0));
            m.fill_hole_apex(e, VP::new(fresh_tag(), V3::zeros()));
            m
        }
        11 => {
            // rings of quads around a polygon
            let mut m = M::<I>::new();
            let mut e = m.insert_polygon(ring(n, 1.0, 0.0));
            for k in 0..1 + b % 3 {
                e = m.loft_polygon(e, 2, 2, ring(n, 2.0 + k as f64, 0.0));
            }
            m
        }
        12 => {
            // several components
            let mut m = M::<I>::new();
            for k in 0..2 + a % 3 {
                m.insert_polygon(ring(3 + ((a + k) % 4) as usize, 1.0, k as f64));
            }
            m.insert_dihedron(ring(n, 1.0, 9.0));
            m
        }
        _ => {
            // a band of triangles
            let mut m = M::<I>::new();
            let e = m.insert_loop(ring(n, 1.0, 0.0));
            m.loft_tri_closed(e, ring(n, 1.0, 1.0));
            m
        }
    }
}

fn slots_of(s: &Snap) -> [usize; 3] {
    let up = |k: Option<&usize>| k.map_or(0, |k| k + 1);
    [up(s.v.keys().next_back()), up(s.e.keys().next_back()), up(s.f.keys().next_back())]
}
