//! Reference model: requests as pure functions on snapshots of a rotation system.

use crate::snap::*;
use crate::types::*;
use std::collections::BTreeMap;

pub const T0: usize = 1 << 40;

#[derive(Clone, Debug)]
pub enum Tf {
    Translate([f64; 3]),
    Scale([f64; 3]),
    RotZ(f64),
    Affine([f64; 3], [f64; 3]),
}

#[derive(Clone, Debug)]
pub enum Req {
    AddVertex { vp: VPd },
    AddIso { a: VPd, b: VPd, ep: Option<(EPd, EPd)> },
    ViaVertex { v: usize, vp: VPd, ep: Option<(EPd, EPd)> },
    ViaEdge { input: usize, output: usize, vp: VPd, ep: Option<(EPd, EPd)> },
    Between { v0: usize, v1: usize, ep: (EPd, EPd) },
    InsertEdge { inside: usize, outside: usize, ep: (EPd, EPd) },
    CloseFace { inside: usize, outside: usize, ep: Option<(EPd, EPd)>, fp: FPd, curved: bool },
    CloseFaceV { prev: usize, from: usize, to: usize, ep: Option<(EPd, EPd)>, fp: FPd, curved: bool },
    CloseHole { e: usize, fp: Option<FPd>, curved: bool },
    RemoveFace { f: usize },
    SplitEdge { e: usize, items: Vec<(EPd, EPd, VPd)> },
    Path { vps: Vec<VPd> },
    Loop { vps: Vec<VPd> },
    Polygon { vps: Vec<VPd> },
    Dihedron { vps: Vec<VPd> },
    FlipEdge { e: usize },
    Flip,
    Clear,
    Transform(Tf),
    SetPayload { tag: u64 },
}

impl Req {
    pub fn name(&self) -> &'static str {
        use Req::*;
        match self {
            AddVertex { .. } => "add_vertex",
            AddIso { .. } => "add_isolated_edge",
            ViaVertex { .. } => "add_vertex_via_vertex",
            ViaEdge { .. } => "add_vertex_via_edge",
            Between { .. } => "insert_edge_between",
            InsertEdge { .. } => "insert_edge",
            CloseFace { .. } => "close_face",
            CloseFaceV { .. } => "close_face_vertices",
            CloseHole { .. } => "close_hole",
            RemoveFace { .. } => "remove_face",
            SplitEdge { .. } => "insert_vertices_into_edge",
            Path { .. } => "insert_path",
            Loop { .. } => "insert_loop",
            Polygon { .. } => "insert_polygon",
            Dihedron { .. } => "insert_dihedron",
            FlipEdge { .. } => "flip_edge",
            Flip => "flip",
            Clear => "clear",
            Transform(_) => "transform",
            SetPayload { .. } => "set_payload",
        }
    }
    /// tags a new element may legitimately carry (besides the default tag)
    pub fn tags(&self) -> Vec<u64> {
        use Req::*;
        let mut t = vec![];
        let mut ep2 = |ep: &Option<(EPd, EPd)>| {
            if let Some((a, b)) = ep {
                t.push(a.tag);
                t.push(b.tag);
            }
        };
        match self {
            AddVertex { vp } => t.push(vp.tag),
            AddIso { a, b, ep } => {
                ep2(ep);
                t.extend([a.tag, b.tag]);
            }
            ViaVertex { vp, ep, .. } | ViaEdge { vp, ep, .. } => {
                ep2(ep);
                t.push(vp.tag);
            }
            Between { ep, .. } | InsertEdge { ep, .. } => t.extend([ep.0.tag, ep.1.tag]),
            CloseFace { ep, fp, .. } | CloseFaceV { ep, fp, .. } => {
                ep2(ep);
                t.push(fp.tag);
            }
            CloseHole { fp, .. } => t.extend(fp.map(|x| x.tag)),
            SplitEdge { items, .. } => {
                for (a, b, v) in items {
                    t.extend([a.tag, b.tag, v.tag]);
                }
            }
            Path { vps } | Loop { vps } | Polygon { vps } | Dihedron { vps } => {
                t.extend(vps.iter().map(|v| v.tag))
            }
            _ => {}
        }
        t
    }
    pub fn is_stream(&self) -> bool {
        matches!(
            self,
            Req::SplitEdge { .. }
                | Req::Path { .. }
                | Req::Loop { .. }
                | Req::Polygon { .. }
                | Req::Dihedron { .. }
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    None,
    V(usize),
    E(usize),
    F(usize),
    VV(usize, usize),
    EE(usize, usize),
    VEE(usize, usize, usize),
    FEE(usize, usize, usize),
    Payload(u64),
}

#[derive(Clone, Debug)]
pub enum Pred {
    Ok(Box<Snap>, Ret),
    /// must be refused, leaving the mesh as it was
    Reject(&'static str),
    /// must be refused, but elements already pulled from a stream may have been added
    Partial(&'static str),
    /// outside the documented domain: not issued
    Unspec(&'static str),
}

struct B {
    s: Snap,
    nv: usize,
    ne: usize,
    nf: usize,
}

impl B {
    fn v(&mut self, p: VPd, edge: usize) -> usize {
        let i = T0 + self.nv;
        self.nv += 1;
        self.s.v.insert(i, SV { edge, p });
        i
    }
    /// adds the pair; next/prev given as Option (None = the twin)
    #[allow(clippy::too_many_arguments)]
    fn pair(
        &mut self,
        o0: usize,
        o1: usize,
        prev0: Option<usize>,
        next0: Option<usize>,
        prev1: Option<usize>,
        next1: Option<usize>,
        ep: (EPd, EPd),
        faces: (usize, usize),
    ) -> (usize, usize) {
        let a = T0 + self.ne;
        let b = a + 1;
        self.ne += 2;
        self.s.e.insert(
            a,
            SE {
                next: next0.unwrap_or(b),
                prev: prev0.unwrap_or(b),
                twin: b,
                origin: o0,
                face: faces.0,
                p: ep.0,
            },
        );
        self.s.e.insert(
            b,
            SE {
                next: next1.unwrap_or(a),
                prev: prev1.unwrap_or(a),
                twin: a,
                origin: o1,
                face: faces.1,
                p: ep.1,
            },
        );
        if let Some(x) = next0 {
            self.s.e.get_mut(&x).unwrap().prev = a;
        }
        if let Some(x) = prev0 {
            self.s.e.get_mut(&x).unwrap().next = a;
        }
        if let Some(x) = next1 {
            self.s.e.get_mut(&x).unwrap().prev = b;
        }
        if let Some(x) = prev1 {
            self.s.e.get_mut(&x).unwrap().next = b;
        }
        (a, b)
    }
    fn face(&mut self, e: usize, p: FPd, curved: bool) -> usize {
        let i = T0 + self.nf;
        self.nf += 1;
        self.s.f.insert(i, SF { edge: e, curved, p });
        for x in self.s.lp(e) {
            self.s.e.get_mut(&x).unwrap().face = i;
        }
        i
    }
    /// new vertex hanging in the corner (input -> output) at v
    fn hang(&mut self, input: usize, output: usize, vp: VPd, ep: (EPd, EPd)) -> (usize, usize, usize) {
        let v = self.s.e[&output].origin;
        let n = self.v(vp, NONE);
        let f = self.s.e[&output].face;
        let (a, b) = self.pair(v, n, Some(input), None, None, Some(output), ep, (f, f));
        self.s.v.get_mut(&n).unwrap().edge = b;
        (n, a, b)
    }
    fn path(&mut self, vps: &[VPd]) -> (usize, usize) {
        let a = self.v(vps[0], NONE);
        let b = self.v(vps[1], NONE);
        let (e0, e1) = self.pair(a, b, None, None, None, None, (DEF, DEF), (NONE, NONE));
        self.s.v.get_mut(&a).unwrap().edge = e0;
        self.s.v.get_mut(&b).unwrap().edge = e1;
        let mut input = e0;
        let mut output = e1;
        for p in &vps[2..] {
            let (_, x, y) = self.hang(input, output, *p, (DEF, DEF));
            input = x;
            output = y;
        }
        (e1, input)
    }
    fn insert_edge(&mut self, inside: usize, outside: usize, ep: (EPd, EPd)) -> (usize, usize) {
        let v = self.s.target(inside);
        let w = self.s.target(outside);
        let oi = self.s.e[&outside].next;
        let oo = self.s.e[&inside].next;
        self.pair(v, w, Some(inside), Some(oi), Some(outside), Some(oo), ep, (NONE, NONE))
    }
}

pub const DEF: EPd = EPd {
    tag: DEFAULT,
    curve: Curve::Lin,
};
pub const FDEF: FPd = FPd { tag: DEFAULT };

pub fn tf_aff(t: &Tf) -> Aff {
    use procedural_modelling::extensions::nalgebra::*;
    use procedural_modelling::math::*;
    match t {
        Tf::Translate(v) => Aff::from_translation(V3::new(v[0], v[1], v[2])),
        Tf::Scale(v) => Aff::from_scale(V3::new(v[0], v[1], v[2])),
        Tf::RotZ(a) => Aff::from_rotation(NdRotate::from_axis_angle(V3::z_axis(), *a)),
        Tf::Affine(s, t) => {
            Aff::from_scale(V3::new(s[0], s[1], s[2])).with_translation(V3::new(t[0], t[1], t[2]))
        }
    }
}

/// Corner of a vertex at which an edge may be attached unambiguously: Ok(None) if isolated.
fn corner(s: &Snap, v: usize) -> Result<Option<usize>, &'static str> {
    if s.v[&v].edge == NONE {
        return Ok(None);
    }
    let b = s.boundary_out(v);
    match b.len() {
        0 => Err("interior vertex"),
        1 => Ok(Some(b[0])),
        _ => Err("ambiguous corner"),
    }
}

pub fn predict(s: &Snap, r: &Req, cap: usize) -> Pred {
    let p = predict0(s, r);
    if let Pred::Ok(n, _) = &p {
        if n.v.len() > cap || n.e.len() > cap || n.f.len() > cap {
            let one_piece = !r.is_stream();
            return if one_piece {
                Pred::Reject("index type exhausted")
            } else {
                Pred::Partial("index type exhausted")
            };
        }
    }
    p
}

fn predict0(s: &Snap, r: &Req) -> Pred {
    use Pred::*;
    let mut b = B {
        s: s.clone(),
        nv: 0,
        ne: 0,
        nf: 0,
    };
    let hv = |v: usize| s.v.contains_key(&v);
    let he = |e: usize| s.e.contains_key(&e);
    let epd = |ep: &Option<(EPd, EPd)>| ep.unwrap_or((DEF, DEF));
    macro_rules! ok {
        ($r:expr) => {{
            let r = $r;
            return Ok(Box::new(b.s), r);
        }};
    }
    match r {
        Req::AddVertex { vp } => {
            let v = b.v(*vp, NONE);
            ok!(Ret::V(v))
        }
        Req::AddIso { a, b: bb, ep } => {
            let v0 = b.v(*a, NONE);
            let v1 = b.v(*bb, NONE);
            let (e0, e1) = b.pair(v0, v1, None, None, None, None, epd(ep), (NONE, NONE));
            b.s.v.get_mut(&v0).unwrap().edge = e0;
            b.s.v.get_mut(&v1).unwrap().edge = e1;
            ok!(Ret::VV(v0, v1))
        }
        Req::ViaEdge { input, output, vp, ep } => {
            if !he(*input) || !he(*output) {
                return Reject("dead edge handle");
            }
            if s.target(*input) != s.e[output].origin {
                return Reject("edges do not meet");
            }
            if s.e[input].next != *output {
                return Unspec("input and output are not consecutive");
            }
            if s.e[input].face != NONE {
                return Unspec("corner lies inside a face");
            }
            let (n, x, y) = b.hang(*input, *output, *vp, epd(ep));
            ok!(Ret::VEE(n, x, y))
        }
        Req::ViaVertex { v, vp, ep } => {
            if !hv(*v) {
                return Reject("dead vertex handle");
            }
            match corner(s, *v) {
                Err(m) => return Reject(m),
                Result::Ok(None) => return Reject("isolated vertex"),
                Result::Ok(Some(o)) => {
                    let input = s.e[&o].prev;
                    let (n, x, y) = b.hang(input, o, *vp, epd(ep));
                    ok!(Ret::VEE(n, x, y))
                }
            }
        }
        Req::Between { v0, v1, ep } => {
            if !hv(*v0) || !hv(*v1) {
                return Reject("dead vertex handle");
            }
            if v0 == v1 {
                return Reject("vertex connected with itself");
            }
            if s.between(*v0, *v1).is_some() {
                return Reject("already connected");
            }
            let c0 = match corner(s, *v0) {
                Err(m) => return Reject(m),
                Result::Ok(c) => c,
            };
            let c1 = match corner(s, *v1) {
                Err(m) => return Reject(m),
                Result::Ok(c) => c,
            };
            let (x, y) = b.pair(
                *v0,
                *v1,
                c0.map(|o| s.e[&o].prev),
                c1,
                c1.map(|o| s.e[&o].prev),
                c0,
                *ep,
                (NONE, NONE),
            );
            if c0.is_none() {
                b.s.v.get_mut(v0).unwrap().edge = x;
            }
            if c1.is_none() {
                b.s.v.get_mut(v1).unwrap().edge = y;
            }
            ok!(Ret::EE(x, y))
        }
        Req::InsertEdge { inside, outside, ep } => {
            if let Some(p) = ins_check(s, *inside, *outside) {
                return p;
            }
            let (x, y) = b.insert_edge(*inside, *outside, *ep);
            ok!(Ret::EE(x, y))
        }
        Req::CloseFace { inside, outside, ep, fp, curved } => {
            if let Some(p) = ins_check(s, *inside, *outside) {
                return p;
            }
            let (x, y) = b.insert_edge(*inside, *outside, epd(ep));
            let f = b.face(*inside, *fp, *curved);
            ok!(Ret::FEE(f, x, y))
        }
        Req::CloseFaceV { prev, from, to, ep, fp, curved } => {
            if !hv(*prev) || !hv(*from) || !hv(*to) {
                return Reject("dead vertex handle");
            }
            let Some(inside) = s.between(*prev, *from) else {
                return Reject("prev and from not connected");
            };
            if from == to {
                return Unspec("self loop");
            }
            let cand: Vec<usize> = s
                .e
                .iter()
                .filter(|(i, e)| {
                    s.target(**i) == *to
                        && e.face == NONE
                        && s.lp(**i).iter().any(|x| s.e[x].origin == *prev)
                })
                .map(|(i, _)| *i)
                .collect();
            if cand.len() != 1 {
                return Reject("no unambiguous outside edge");
            }
            if let Some(p) = ins_check(s, inside, cand[0]) {
                return p;
            }
            let (x, y) = b.insert_edge(inside, cand[0], epd(ep));
            let f = b.face(inside, *fp, *curved);
            ok!(Ret::FEE(f, x, y))
        }
        Req::CloseHole { e, fp, curved } => {
            if !he(*e) {
                return Reject("dead edge handle");
            }
            if s.e[e].face != NONE {
                return Reject("loop already has a face");
            }
            let f = b.face(*e, fp.unwrap_or(FDEF), *curved);
            ok!(Ret::F(f))
        }
        Req::RemoveFace { f } => {
            if !s.f.contains_key(f) {
                return Reject("dead face handle");
            }
            for x in s.face_loop(*f) {
                b.s.e.get_mut(&x).unwrap().face = NONE;
            }
            b.s.f.remove(f);
            ok!(Ret::Payload(s.f[f].p.tag))
        }
        Req::SplitEdge { e, items } => {
            if !he(*e) {
                return Reject("dead edge handle");
            }
            let mut first = NONE;
            for (p1, p2, vp) in items {
                // split at e's current origin: origin -a-> new -e-> target
                let cur = b.s.e[e];
                let t = cur.twin;
                let o = cur.origin;
                let tn = b.s.e[&t].next; // starts at o
                let n = b.v(*vp, *e);
                let (f, tf) = (cur.face, b.s.e[&t].face);
                let dangling = cur.prev == t;
                let (x, _) = if dangling {
                    // o has no other edge: t -> y -> x -> e
                    b.pair(o, n, None, Some(*e), Some(t), None, (*p1, *p2), (f, tf))
                } else {
                    b.pair(o, n, Some(cur.prev), Some(*e), Some(t), Some(tn), (*p1, *p2), (f, tf))
                };
                b.s.e.get_mut(e).unwrap().origin = n;
                b.s.v.get_mut(&o).unwrap().edge = x;
                if first == NONE {
                    first = x;
                }
            }
            ok!(Ret::E(if first == NONE { *e } else { first }))
        }
        Req::Path { vps } => {
            if vps.len() < 2 {
                return Partial("path too short");
            }
            let (x, y) = b.path(vps);
            ok!(Ret::EE(x, y))
        }
        Req::Loop { vps } | Req::Polygon { vps } | Req::Dihedron { vps } => {
            if vps.len() < 3 {
                return Partial("loop too short");
            }
            let (first, last) = b.path(vps);
            b.insert_edge(first, last, (DEF, DEF));
            let tw = b.s.e[&first].twin;
            match r {
                Req::Loop { .. } => ok!(Ret::E(first)),
                Req::Polygon { .. } => {
                    b.face(first, FDEF, false);
                    ok!(Ret::E(tw))
                }
                _ => {
                    b.face(first, FDEF, false);
                    b.face(tw, FDEF, false);
                    ok!(Ret::E(tw))
                }
            }
        }
        Req::FlipEdge { e } => {
            if !he(*e) {
                return Reject("dead edge handle");
            }
            let t = s.e[e].twin;
            b.s = flip_pairs(s, &[(*e, t)]);
            ok!(Ret::None)
        }
        Req::Flip => {
            let ps: Vec<_> = s
                .e
                .iter()
                .filter(|(i, e)| **i < e.twin)
                .map(|(i, e)| (*i, e.twin))
                .collect();
            b.s = flip_pairs(s, &ps);
            ok!(Ret::None)
        }
        Req::Clear => {
            b.s.v.clear();
            b.s.e.clear();
            b.s.f.clear();
            ok!(Ret::None)
        }
        Req::Transform(t) => {
            let a = tf_aff(t);
            b.s = transform_snap(s, &a);
            ok!(Ret::None)
        }
        Req::SetPayload { tag } => {
            b.s.mp = *tag;
            ok!(Ret::None)
        }
    }
}

pub fn transform_snap(s: &Snap, a: &Aff) -> Snap {
    let mut n = s.clone();
    for v in n.v.values_mut() {
        v.p.transform(a);
    }
    for e in n.e.values_mut() {
        e.p.transform(a);
    }
    for f in n.f.values_mut() {
        f.p.transform(a);
    }
    let mut mp = FPd { tag: n.mp };
    mp.transform(a);
    n.mp = mp.tag;
    n
}

/// Swaps the roles of the two half-edges of each pair; payloads stay with their ids.
pub fn flip_pairs(s: &Snap, ps: &[(usize, usize)]) -> Snap {
    let mut m: BTreeMap<usize, usize> = BTreeMap::new();
    for (a, b) in ps {
        m.insert(*a, *b);
        m.insert(*b, *a);
    }
    let sg = |x: usize| m.get(&x).copied().unwrap_or(x);
    let mut n = s.clone();
    for (i, e) in n.e.iter_mut() {
        let o = s.e[&sg(*i)];
        e.next = sg(o.next);
        e.prev = sg(o.prev);
        e.twin = sg(o.twin);
        e.origin = o.origin;
        e.face = o.face;
    }
    for v in n.v.values_mut() {
        v.edge = sg(v.edge);
    }
    for f in n.f.values_mut() {
        f.edge = sg(f.edge);
    }
    n
}

fn ins_check(s: &Snap, inside: usize, outside: usize) -> Option<Pred> {
    if !s.e.contains_key(&inside) || !s.e.contains_key(&outside) {
        return Some(Pred::Reject("dead edge handle"));
    }
    let v = s.target(inside);
    let w = s.target(outside);
    if v == w {
        return Some(Pred::Unspec("self loop"));
    }
    if s.between(v, w).is_some() {
        return Some(Pred::Reject("already connected"));
    }
    let li = s.lp(inside);
    if !li.contains(&outside) {
        let w_in = li.iter().any(|x| s.e[x].origin == w);
        let v_in = s.lp(outside).iter().any(|x| s.e[x].origin == v);
        if w_in && v_in {
            return Some(Pred::Unspec("loops share vertices but differ"));
        }
        return Some(Pred::Reject("edges lie on different loops"));
    }
    if s.e[&inside].face != NONE {
        return Some(Pred::Reject("loop already has a face"));
    }
    None
}

/// Maps the model's temporary ids to the ids the crate chose; Err if the new elements differ.
pub fn bind(exp: &Snap, before: &Snap, got: &Snap) -> Result<(Snap, BTreeMap<usize, usize>, BTreeMap<usize, usize>, BTreeMap<usize, usize>), String> {
    let nv: Vec<usize> = got.v.keys().filter(|i| !before.v.contains_key(i)).copied().collect();
    let ne: Vec<usize> = got.e.keys().filter(|i| !before.e.contains_key(i)).copied().collect();
    let nf: Vec<usize> = got.f.keys().filter(|i| !before.f.contains_key(i)).copied().collect();
    let xv: Vec<usize> = exp.v.keys().filter(|i| **i >= T0).copied().collect();
    let xe: Vec<usize> = exp.e.keys().filter(|i| **i >= T0).copied().collect();
    let xf: Vec<usize> = exp.f.keys().filter(|i| **i >= T0).copied().collect();
    if nv.len() != xv.len() || ne.len() != xe.len() || nf.len() != xf.len() {
        return Err(format!(
            "created {} vertices, {} half-edges, {} faces; expected {}, {}, {}",
            nv.len(), ne.len(), nf.len(), xv.len(), xe.len(), xf.len()
        ));
    }
    let mut mv = BTreeMap::new();
    for x in &xv {
        let t = exp.v[x].p.tag;
        let c: Vec<usize> = nv.iter().filter(|i| got.v[i].p.tag == t).copied().collect();
        if c.len() != 1 {
            return Err(format!("{} new vertices carry payload {:x}", c.len(), t));
        }
        mv.insert(*x, c[0]);
    }
    let rv = |x: usize| mv.get(&x).copied().unwrap_or(x);
    let mut me = BTreeMap::new();
    for x in &xe {
        let o = rv(exp.e[x].origin);
        let t = rv(exp.target(*x));
        let c: Vec<usize> = ne
            .iter()
            .filter(|i| {
                got.e[i].origin == o && got.e.get(&got.e[i].twin).map(|y| y.origin) == Some(t)
            })
            .copied()
            .collect();
        if c.len() != 1 {
            return Err(format!("{} new half-edges run from {o} to {t}", c.len()));
        }
        me.insert(*x, c[0]);
    }
    let re = |x: usize| me.get(&x).copied().unwrap_or(x);
    let mut mf = BTreeMap::new();
    for x in &xf {
        let e = re(exp.f[x].edge);
        let f = got.e.get(&e).map(|y| y.face).unwrap_or(NONE);
        if !nf.contains(&f) || mf.values().any(|y| *y == f) {
            return Err(format!("half-edge {e} should have a new face but has {}", sid(f)));
        }
        mf.insert(*x, f);
    }
    let rf = |x: usize| mf.get(&x).copied().unwrap_or(x);
    let mut out = Snap {
        mp: exp.mp,
        ..Default::default()
    };
    for (i, v) in &exp.v {
        out.v.insert(rv(*i), SV { edge: re(v.edge), p: v.p });
    }
    for (i, e) in &exp.e {
        out.e.insert(
            re(*i),
            SE {
                next: re(e.next),
                prev: re(e.prev),
                twin: re(e.twin),
                origin: rv(e.origin),
                face: rf(e.face),
                p: e.p,
            },
        );
    }
    for (i, f) in &exp.f {
        out.f.insert(rf(*i), SF { edge: re(f.edge), curved: f.curved, p: f.p });
    }
    Ok((out, mv, me, mf))
}

pub fn bind_ret(r: &Ret, mv: &BTreeMap<usize, usize>, me: &BTreeMap<usize, usize>, mf: &BTreeMap<usize, usize>) -> Ret {
    let v = |x: &usize| mv.get(x).copied().unwrap_or(*x);
    let e = |x: &usize| me.get(x).copied().unwrap_or(*x);
    let f = |x: &usize| mf.get(x).copied().unwrap_or(*x);
    match r {
        Ret::None => Ret::None,
        Ret::V(a) => Ret::V(v(a)),
        Ret::E(a) => Ret::E(e(a)),
        Ret::F(a) => Ret::F(f(a)),
        Ret::VV(a, b) => Ret::VV(v(a), v(b)),
        Ret::EE(a, b) => Ret::EE(e(a), e(b)),
        Ret::VEE(a, b, c) => Ret::VEE(v(a), e(b), e(c)),
        Ret::FEE(a, b, c) => Ret::FEE(f(a), e(b), e(c)),
        Ret::Payload(p) => Ret::Payload(*p),
    }
}
