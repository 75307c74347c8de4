//! The simulated caller's mesh type: payloads that carry unique tags and report every call-back.

use crate::env::{event, tick, Ev};
use crate::rng::{hstr, mix2};
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::halfedge::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type V3 = VecN<f64, 3>;
pub type Aff = NdAffine<f64, 3>;

pub const DEFAULT: u64 = 1 << 62;
pub const ALLOC: u64 = 1 << 61;
pub const FROMPOS: u64 = 1 << 60;
pub const NONE: usize = usize::MAX;

pub trait Ix: IndexType + Send + Sync {
    const NAME: &'static str;
    const CAP: usize; // number of usable ids
}
impl Ix for usize {
    const NAME: &'static str = "usize";
    const CAP: usize = usize::MAX;
}
impl Ix for u16 {
    const NAME: &'static str = "u16";
    const CAP: usize = 65535;
}
impl Ix for u8 {
    const NAME: &'static str = "u8";
    const CAP: usize = 255;
}

#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct MT<I: IndexType>(PhantomData<I>);

pub type M<I> = HalfEdgeMeshImpl<MT<I>>;

impl<I: IndexType> MeshType for MT<I> {
    type E = I;
    type V = I;
    type F = I;
    type EP = EP;
    type VP = VP;
    type FP = FP;
    type MP = MP;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl<I: IndexType> EuclideanMeshType<3> for MT<I> {
    type S = f64;
    type Vec = V3;
    type Vec2 = VecN<f64, 2>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl<I: IndexType> HalfEdgeImplMeshType for MT<I> {}
impl<I: IndexType> MeshTypeHalfEdge for MT<I> {}
impl<I: IndexType> MeshType3D for MT<I> {}

// ------------------------------------------------------------ plain data (used by the model)

fn b3(v: &V3) -> [u64; 3] {
    [v[0].to_bits(), v[1].to_bits(), v[2].to_bits()]
}

fn hash_aff(t: &Aff) -> u64 {
    let mut h = 0;
    for p in [
        V3::new(0.0, 0.0, 0.0),
        V3::new(1.0, 2.0, 3.0),
        V3::new(-3.0, 1.0, 0.5),
        V3::new(0.25, -2.0, 7.0),
    ] {
        for b in b3(&t.apply(p)) {
            h = mix2(h, b);
        }
        for b in b3(&t.apply_vec(p)) {
            h = mix2(h, b);
        }
    }
    h
}

fn retag(tag: u64, h: u64) -> u64 {
    (tag & (DEFAULT | ALLOC | FROMPOS)) | (mix2(tag, h) >> 8)
}

/// Vertex payload data.
#[derive(Clone, Copy, PartialEq)]
pub struct VPd {
    pub tag: u64,
    pub pos: V3,
    pub nrm: V3,
    pub uv: VecN<f64, 2>,
}

impl Debug for VPd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "#{:x}@({:.3},{:.3},{:.3})",
            self.tag, self.pos[0], self.pos[1], self.pos[2]
        )
    }
}

impl VPd {
    pub fn new(tag: u64, pos: V3) -> Self {
        VPd {
            tag,
            pos,
            nrm: V3::zeros(),
            uv: VecN::<f64, 2>::zeros(),
        }
    }
    pub fn bits(&self) -> [u64; 9] {
        [
            self.tag,
            self.pos[0].to_bits(),
            self.pos[1].to_bits(),
            self.pos[2].to_bits(),
            self.nrm[0].to_bits(),
            self.nrm[1].to_bits(),
            self.nrm[2].to_bits(),
            self.uv[0].to_bits(),
            self.uv[1].to_bits(),
        ]
    }
    pub fn transform(&mut self, t: &Aff) {
        self.tag = retag(self.tag, hash_aff(t));
        self.pos = t.apply(self.pos);
        self.nrm = t.apply_vec(self.nrm);
    }
    pub fn lerp(&mut self, o: &VPd, t: f64) {
        self.tag = retag(self.tag, mix2(o.tag, t.to_bits()));
        self.pos = self.pos.lerp(&o.pos, t);
        self.nrm = self.nrm.lerp(&o.nrm, t);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Curve {
    Lin,
    Quad(V3),
    Cubic(V3, V3),
}

/// Edge payload data.
#[derive(Clone, Copy, PartialEq)]
pub struct EPd {
    pub tag: u64,
    pub curve: Curve,
}
impl Debug for EPd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{:x}", self.tag)?;
        if self.curve != Curve::Lin {
            write!(f, "{:?}", self.curve)?;
        }
        Ok(())
    }
}
impl EPd {
    pub fn new(tag: u64) -> Self {
        EPd {
            tag,
            curve: Curve::Lin,
        }
    }
    pub fn transform(&mut self, t: &Aff) {
        self.tag = retag(self.tag, hash_aff(t));
        self.curve = match self.curve {
            Curve::Lin => Curve::Lin,
            Curve::Quad(a) => Curve::Quad(t.apply(a)),
            Curve::Cubic(a, b) => Curve::Cubic(t.apply(a), t.apply(b)),
        };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FPd {
    pub tag: u64,
}
impl FPd {
    pub fn transform(&mut self, t: &Aff) {
        self.tag = retag(self.tag, hash_aff(t));
    }
}

// ------------------------------------------------------------ payloads handed to the crate

#[derive(PartialEq)]
pub struct VP(pub VPd);
impl Clone for VP {
    fn clone(&self) -> Self {
        tick();
        VP(self.0)
    }
}
impl Debug for VP {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl VP {
    pub fn new(tag: u64, pos: V3) -> Self {
        VP(VPd::new(tag, pos))
    }
}
impl VertexPayload for VP {
    fn allocate() -> Self {
        event(Ev::VAlloc, 0);
        VP(VPd::new(ALLOC, V3::zeros()))
    }
}
impl HasPosition<3, V3> for VP {
    type S = f64;
    fn pos(&self) -> &V3 {
        &self.0.pos
    }
    fn from_pos(v: V3) -> Self {
        event(Ev::FromPos, 0);
        VP(VPd::new(FROMPOS, v))
    }
    fn set_pos(&mut self, v: V3) {
        event(Ev::SetPos, self.0.tag);
        self.0.pos = v;
    }
}
impl HasNormal<3, V3> for VP {
    type S = f64;
    fn normal(&self) -> &V3 {
        &self.0.nrm
    }
    fn set_normal(&mut self, n: V3) {
        event(Ev::SetNormal, self.0.tag);
        self.0.nrm = n;
    }
}
impl HasUV<VecN<f64, 2>> for VP {
    type S = f64;
    fn uv(&self) -> &VecN<f64, 2> {
        &self.0.uv
    }
    fn set_uv(&mut self, uv: VecN<f64, 2>) {
        self.0.uv = uv;
    }
}
macro_rules! trans3 {
    ($t:ty) => {
        type S = f64;
        type Rot = NdRotate<f64, 3>;
        type Trans = NdAffine<f64, 3>;
        type Vec = V3;
        fn transform(&mut self, t: &Self::Trans) -> &mut Self {
            event(Ev::Transform, self.0.tag);
            self.0.transform(t);
            self
        }
    };
}
impl Transformable<3> for VP {
    trans3!(VP);
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        event(Ev::Lerp, self.0.tag);
        self.0.lerp(&o.0, t);
        self
    }
}

#[derive(PartialEq)]
pub struct EP(pub EPd);
impl Clone for EP {
    fn clone(&self) -> Self {
        tick();
        EP(self.0)
    }
}
impl Debug for EP {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl EP {
    pub fn new(tag: u64) -> Self {
        EP(EPd::new(tag))
    }
}
impl Default for EP {
    fn default() -> Self {
        event(Ev::EDefault, 0);
        EP(EPd::new(DEFAULT))
    }
}
impl EdgePayload for EP {
    fn allocate() -> Self {
        event(Ev::EAlloc, 0);
        EP(EPd::new(ALLOC))
    }
    fn is_empty(&self) -> bool {
        false
    }
}
impl DefaultEdgePayload for EP {}
impl Transformable<3> for EP {
    trans3!(EP);
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        event(Ev::Lerp, self.0.tag);
        self.0.tag = retag(self.0.tag, mix2(o.0.tag, t.to_bits()));
        self
    }
}

impl<I: IndexType> CurvedEdge<3, MT<I>> for HalfEdgeImpl<MT<I>> {
    fn curve_type(&self) -> CurvedEdgeType<3, MT<I>> {
        event(Ev::Curve, 0);
        match self.payload().0.curve {
            Curve::Lin => CurvedEdgeType::Linear,
            Curve::Quad(a) => CurvedEdgeType::QuadraticBezier(a),
            Curve::Cubic(a, b) => CurvedEdgeType::CubicBezier(a, b),
        }
    }
    fn set_curve_type(&mut self, c: CurvedEdgeType<3, MT<I>>) {
        event(Ev::Curve, 1);
        self.payload_mut().0.curve = match c {
            CurvedEdgeType::Linear => Curve::Lin,
            CurvedEdgeType::QuadraticBezier(a) => Curve::Quad(a),
            CurvedEdgeType::CubicBezier(a, b) => Curve::Cubic(a, b),
        };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FP(pub FPd);
impl FP {
    pub fn new(tag: u64) -> Self {
        FP(FPd { tag })
    }
}
impl Default for FP {
    fn default() -> Self {
        event(Ev::FDefault, 0);
        FP(FPd { tag: DEFAULT })
    }
}
impl FacePayload for FP {
    fn allocate() -> Self {
        event(Ev::FAlloc, 0);
        FP(FPd { tag: ALLOC })
    }
}
impl DefaultFacePayload for FP {}
impl Transformable<3> for FP {
    trans3!(FP);
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        event(Ev::Lerp, self.0.tag);
        self.0.tag = retag(self.0.tag, mix2(o.0.tag, t.to_bits()));
        self
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct MP(pub FPd);
impl Default for MP {
    fn default() -> Self {
        MP(FPd { tag: DEFAULT })
    }
}
impl<I: IndexType> MeshPayload<MT<I>> for MP {}
impl Transformable<3> for MP {
    trans3!(MP);
    fn lerp(&mut self, o: &Self, t: f64) -> &mut Self {
        event(Ev::Lerp, self.0.tag);
        self.0.tag = retag(self.0.tag, mix2(o.0.tag, t.to_bits()));
        self
    }
}

pub fn _unused() -> u64 {
    hstr("")
}
