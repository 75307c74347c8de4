//! C16: transformations built in several steps act like these steps one after the other, on points,
//! payloads, curves and whole meshes, also when a payload fails midway.
//!
//! All expected values are computed with plain f64 arithmetic here, never with the crate's matrices.

use super::conv::{down, draw_curves, perform2, topo2, C2};
use super::*;
use crate::by_index;
use crate::env::*;
use crate::snap::*;
use crate::types::*;
use nalgebra::{SMatrix, Unit};
use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::math::*;
use procedural_modelling::mesh::*;

pub fn gen(r: &mut Rng, idx: u64, sc: &mut Scenario) {
    sc.set("it", [0, 1, 2, 0][(idx % 4) as usize]);
    let len = r.below(16);
    gen_history(r, sc, len, r.clone().chance(1, 6), 3);
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("compose", &args(r, 3)));
    let n = 1 + r.below(3);
    sprinkle(r, sc, n, &mut |r| {
        let mut a = args(r, 3);
        a.push(if r.chance(1, 3) { 1 + r.below(40) as u64 } else { 0 });
        Step::new("move", &a)
    });
    let n = r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("real", &args(r, 4)));
    let n = r.below(3);
    sprinkle(r, sc, n, &mut |r| Step::new("vectors", &args(r, 2)));
}

pub fn exec(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    by_index!(sc, run(sc, stats))
}

fn run<I: Ix>(sc: &Scenario, stats: &mut Stats) -> Result<(), Violation> {
    let mut ed = Editor::<I>::new(sc.p("clients").max(1) as usize, Want::default());
    ed.log = Some(vec![]);
    let mut res = Ok(());
    for st in &sc.steps {
        if res.is_err() || ed.dead {
            break;
        }
        res = match st.op.as_str() {
            "compose" => compose(&mut ed, st),
            "move" => move_all(&mut ed, st),
            "real" => real(&mut ed, st),
            "vectors" => vectors(&mut ed, st),
            _ => ed.step(st).map(|_| ()),
        };
    }
    if ed.dead {
        ed.stats.c("runs-ended-by-foreign-violation");
    }
    if ["compose:points", "move:ok"].iter().any(|k| ed.stats.get(k) > 0) {
        ed.stats.c("nontrivial");
    }
    *stats = std::mem::take(&mut ed.stats);
    res
}

// ------------------------------------------------------------------- the reference

type A4 = [f64; 4];

#[derive(Clone, Debug)]
enum El {
    Scale(A4),
    Move(A4),
    Turn([A4; 4]),
}

fn mul(m: &[A4; 4], p: A4) -> A4 {
    [0, 1, 2, 3].map(|i| (0..4).map(|j| m[i][j] * p[j]).sum())
}

/// One step after the other; `dir`: a direction, which no translation moves.
fn follow(els: &[El], mut p: A4, dir: bool) -> A4 {
    for e in els {
        p = match e {
            El::Scale(s) => [0, 1, 2, 3].map(|i| p[i] * s[i]),
            El::Move(t) if !dir => [0, 1, 2, 3].map(|i| p[i] + t[i]),
            El::Move(_) => p,
            El::Turn(m) => mul(m, p),
        };
    }
    p
}

/// How large numbers can get on the way.
fn size(els: &[El], p: A4) -> f64 {
    let mut b = 1.0 + p.iter().map(|x| x.abs()).sum::<f64>();
    let mut most = b;
    for e in els {
        match e {
            El::Scale(s) => b *= s.iter().fold(0.0f64, |a, x| a.max(x.abs())),
            El::Move(t) => b += t.iter().map(|x| x.abs()).sum::<f64>(),
            El::Turn(_) => b *= 2.0,
        }
        most = most.max(b);
    }
    most
}

const ID: [A4; 4] = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];

fn turn2(a: f64) -> [A4; 4] {
    let mut m = ID;
    m[0][0] = a.cos();
    m[0][1] = -a.sin();
    m[1][0] = a.sin();
    m[1][1] = a.cos();
    m
}

/// Rodrigues
fn turn3(u: [f64; 3], a: f64) -> [A4; 4] {
    let l = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
    let u = u.map(|x| x / l);
    let (s, c) = (a.sin(), a.cos());
    let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]];
    let mut m = ID;
    for i in 0..3 {
        for j in 0..3 {
            let d = if i == j { 1.0 } else { 0.0 };
            m[i][j] = c * d + s * k[i][j] + (1.0 - c) * u[i] * u[j];
        }
    }
    m
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// The least turn that takes the direction of `f` to that of `t`; None if there are several.
fn arc(f: A4, t: A4, d: usize) -> Option<[A4; 4]> {
    let (lf, lt) = (dot(&f, &f).sqrt(), dot(&t, &t).sqrt());
    let c = (dot(&f, &t) / (lf * lt)).clamp(-1.0, 1.0);
    if d == 2 {
        return Some(turn2((f[0] * t[1] - f[1] * t[0]).atan2(f[0] * t[0] + f[1] * t[1])));
    }
    let x = [f[1] * t[2] - f[2] * t[1], f[2] * t[0] - f[0] * t[2], f[0] * t[1] - f[1] * t[0]];
    if x == [0.0; 3] {
        return if c > 0.0 { Some(ID) } else { None };
    }
    let s = dot(&x, &x).sqrt() / (lf * lt);
    Some(turn3(x, s.atan2(c)))
}

// ------------------------------------------------------------------- building

trait Num: ScalarPlus + Scalar {
    const TOL: f64;
    fn of(x: f64) -> Self;
}
impl Num for f32 {
    const TOL: f64 = 2e-5;
    fn of(x: f64) -> Self {
        x as f32
    }
}
impl Num for f64 {
    const TOL: f64 = 1e-12;
    fn of(x: f64) -> Self {
        x
    }
}

fn vn<S: Num, const D: usize>(p: A4) -> VecN<S, D> {
    VecN::<S, D>::from_fn(|i, _| S::of(p[i]))
}
fn a4<S: Num, const D: usize>(p: &VecN<S, D>) -> A4 {
    let mut a = [0.0; 4];
    for i in 0..D {
        a[i] = Scalar::to_f64(p[i]);
    }
    a
}

/// A quarter-integer vector of D coordinates (exact in both scalar types).
fn quarters(r: &mut Rng, d: usize) -> A4 {
    let mut a = [0.0; 4];
    for x in a.iter_mut().take(d) {
        *x = r.range(-12, 12) as f64 / 4.0;
    }
    a
}
fn nonzero(r: &mut Rng, d: usize) -> A4 {
    loop {
        let a = quarters(r, d);
        if a != [0.0; 4] {
            return a;
        }
    }
}

fn rotation<S: Num, const D: usize>(r: &mut Rng) -> Result<(NdRotate<S, D>, [A4; 4]), String> {
    let a = r.range(-14, 14) as f64 / *r.pick(&[4.0, 4.0, 1024.0]);
    match (D, r.below(3)) {
        (2, 0) => Ok((NdRotate::from_angle(S::of(a)), turn2(a))),
        (3, 0) => {
            let u = nonzero(r, 3);
            let ax = Unit::new_normalize(VecN::<S, 3>::new(S::of(u[0]), S::of(u[1]), S::of(u[2])));
            Ok((NdRotate::from_axis_angle(ax, S::of(a)), turn3([u[0], u[1], u[2]], a)))
        }
        (2 | 3, 1) => {
            let f = nonzero(r, D);
            let t = match r.below(4) {
                0 => f.map(|x| -x * 2.0),
                1 => f.map(|x| x * 3.0),
                _ => nonzero(r, D),
            };
            let rot = NdRotate::<S, D>::from_rotation_arc(vn(f), vn(t));
            arc_of(&rot.to_matrix(), f, t).map(|m| (rot, m))
        }
        _ => {
            // an exact rotation: a permutation of the axes with signs
            let mut m = [[0.0; 4]; 4];
            let mut ax: Vec<usize> = (0..D).collect();
            r.shuffle(&mut ax);
            for i in 0..D {
                m[i][ax[i]] = if r.chance(1, 2) { 1.0 } else { -1.0 };
            }
            for i in D..4 {
                m[i][i] = 1.0;
            }
            if det(&m) < 0.0 {
                m[0] = m[0].map(|x| -x);
            }
            Ok((NdRotate::new(SMatrix::<S, D, D>::from_fn(|i, j| S::of(m[i][j]))), m))
        }
    }
}

fn det(m: &[A4; 4]) -> f64 {
    nalgebra::Matrix4::from_fn(|i, j| m[i][j]).determinant()
}

/// The matrix of a rotation arc, checked.
fn arc_of<S: Num, const D: usize>(lib: &SMatrix<S, D, D>, f: A4, t: A4) -> Result<[A4; 4], String> {
    let mut m = ID;
    for i in 0..D {
        for j in 0..D {
            m[i][j] = Scalar::to_f64(lib[(i, j)]);
        }
    }
    let what = || format!("the rotation from {:?} to {:?} is {lib:?}", &f[..D], &t[..D]);
    match arc(f, t, D) {
        Some(x) => {
            if (0..4).any(|i| (0..4).any(|j| (x[i][j] - m[i][j]).abs() > 10.0 * S::TOL)) {
                return Err(format!("{}, expected {x:?}", what()));
            }
            Ok(x)
        }
        None => {
            // opposite directions: any half turn around a perpendicular axis
            let ortho = (0..4).all(|i| {
                (0..4).all(|j| (dot(&m[i], &m[j]) - if i == j { 1.0 } else { 0.0 }).abs() < 10.0 * S::TOL)
            });
            let to = mul(&m, f);
            let (lf, lt) = (dot(&f, &f).sqrt(), dot(&t, &t).sqrt());
            if !ortho || (det(&m) - 1.0).abs() > 10.0 * S::TOL || (0..D).any(|i| (to[i] / lf - t[i] / lt).abs() > 10.0 * S::TOL) {
                return Err(format!("{}, which is not a rotation that does so", what()));
            }
            Ok(m)
        }
    }
}

/// Puts a transformation together; `els` gets the steps it consists of, first to last.
fn build<S: Num, const D: usize>(r: &mut Rng, depth: usize, els: &mut Vec<El>) -> Result<NdAffine<S, D>, String> {
    type A<S, const D: usize> = NdAffine<S, D>;
    let scale = |r: &mut Rng| {
        let mut s = if r.chance(1, 8) { quarters(r, D) } else { [0.0; 4] };
        if s == [0.0; 4] {
            for x in s.iter_mut().take(D) {
                *x = *r.pick(&[0.5, 2.0, -1.0, 1.0, 1.5, -0.75, 1.0078125, 0.99609375]);
            }
        }
        s
    };
    let mut t = match r.below(6) {
        0 => A::<S, D>::identity(),
        1 => A::<S, D>::default(),
        2 => {
            let s = scale(r);
            els.push(El::Scale(s));
            A::from_scale(vn(s))
        }
        3 => {
            let v = quarters(r, D);
            els.push(El::Move(v));
            A::from_translation(vn(v))
        }
        4 if D < 4 => {
            let (f, g) = (nonzero(r, D), nonzero(r, D));
            let g = if r.chance(1, 4) { f.map(|x| -x) } else { g };
            let t = A::<S, D>::from_rotation_arc(vn(f), vn(g));
            // a rotation has nothing to add to a point; its columns are what it does to the axes
            let cols = SMatrix::<S, D, D>::from_fn(|i, j| {
                let mut e = [0.0; 4];
                e[j] = 1.0;
                t.apply(vn(e))[i]
            });
            els.push(El::Turn(arc_of(&cols, f, g)?));
            t
        }
        _ => {
            let (q, m) = rotation::<S, D>(r)?;
            els.push(El::Turn(m));
            A::from_rotation(q)
        }
    };
    for _ in 0..r.below(5) {
        t = match r.below(4) {
            0 => {
                let s = scale(r);
                els.push(El::Scale(s));
                t.with_scale(vn(s))
            }
            1 => {
                let v = quarters(r, D);
                els.push(El::Move(v));
                t.with_translation(vn(v))
            }
            _ if depth > 0 => {
                let mut sub = vec![];
                let o = build::<S, D>(r, depth - 1, &mut sub)?;
                if r.chance(1, 2) {
                    els.extend(sub);
                    t.chain(&o)
                } else {
                    sub.append(els);
                    *els = sub;
                    o.chain(&t)
                }
            }
            _ => t,
        };
    }
    Ok(t)
}

fn elementary<S: Num, const D: usize>(e: &El) -> NdAffine<S, D> {
    match e {
        El::Scale(s) => NdAffine::from_scale(vn(*s)),
        El::Move(t) => NdAffine::from_translation(vn(*t)),
        El::Turn(m) => NdAffine::new(SMatrix::<S, D, D>::from_fn(|i, j| S::of(m[i][j])), VecN::zeros()),
    }
}

fn off(a: A4, b: A4) -> f64 {
    (0..4).fold(0.0, |m, i| f64::max(m, if a[i].is_nan() { f64::INFINITY } else { (a[i] - b[i]).abs() }))
}

// ------------------------------------------------------------------- points and payloads

fn compose<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let res = call(|| match st.arg(2) % 6 {
        0 => points::<f64, 2>(&mut r),
        1 => points::<f64, 4>(&mut r),
        2 => points::<f32, 3>(&mut r),
        3 => points::<f32, 2>(&mut r),
        _ => points::<f64, 3>(&mut r),
    });
    match res {
        Res::Ok(Ok(n)) => {
            ed.stats.add("compose:points", n);
            ed.stats.t(st.arg(0));
            Ok(())
        }
        Res::Ok(Err(e)) => viol(format!("compose:{}", e.0), e.1),
        o => viol("compose:failed", format!("putting a transformation together or applying it failed: {o:?}")),
    }
}

type Why = (&'static str, String);

fn points<S: Num, const D: usize>(r: &mut Rng) -> Result<u64, Why>
where
    VertexPayloadPNU<S, D>: Transformable<D, S = S, Vec = VecN<S, D>, Trans = NdAffine<S, D>, Rot = NdRotate<S, D>>,
{
    let mut els = vec![];
    let t = build::<S, D>(r, 2, &mut els).map_err(|e| ("rotation-arc", e))?;
    let mut n = 0;
    for _ in 0..4 {
        let p = quarters(r, D);
        let tol = S::TOL * size(&els, p) * (2.0 + els.len() as f64);
        let check = |what: &'static str, got: A4, dir: bool| -> Result<(), Why> {
            let want = follow(&els, p, dir);
            if off(got, want) > tol {
                return Err((what, format!("{els:?} of {:?} in {D}d: {:?}, expected {:?}", &p[..D], &got[..D], &want[..D])));
            }
            Ok(())
        };
        let v: VecN<S, D> = vn(p);
        check("apply", a4(&t.apply(v)), false)?;
        check("apply_vec", a4(&t.apply_vec(v)), true)?;
        check("point-transformed", a4(&Transformable::<D>::transformed(&v, &t)), false)?;
        // a payload: the position is a point, the normal a direction, the texture coordinate neither
        let (q, uv) = (quarters(r, D), quarters(r, 2));
        let mut pl = VertexPayloadPNU::<S, D>::from_pos(vn(q));
        pl.set_normal(v);
        pl.set_uv(vn(uv));
        let mut pp = VertexPayloadPNU::<S, D>::from_pos(v);
        pp.set_normal(vn(q));
        let moved = pl.transformed(&t);
        let mut in_place = pl;
        in_place.transform(&t);
        if moved != in_place {
            return Err(("payload", format!("transformed() gives {moved:?}, transform() {in_place:?}")));
        }
        check("payload-normal", a4(moved.normal()), true)?;
        check("payload-position", a4(HasPosition::<D, _>::pos(&pp.transformed(&t))), false)?;
        if a4(moved.uv()) != uv {
            return Err(("payload-uv", format!("{:?} became {:?}", uv, moved.uv())));
        }
        n += 1;
        // single steps under their own names
        let s = quarters(r, D);
        let one = |what: &'static str, els: &[El], got: VertexPayloadPNU<S, D>, pt: VecN<S, D>| -> Result<(), Why> {
            let tol = S::TOL * 8.0 * size(els, p).max(size(els, q));
            let x = a4(HasPosition::<D, _>::pos(&got));
            if off(x, follow(els, q, false)) > tol || off(a4(got.normal()), follow(els, p, true)) > tol || a4(got.uv()) != uv {
                return Err((what, format!("{els:?} of a payload at {q:?} with normal {p:?}: {got:?}")));
            }
            if off(a4(&pt), follow(els, p, false)) > tol {
                return Err((what, format!("{els:?} of the point {p:?}: {pt:?}")));
            }
            Ok(())
        };
        one("translated", &[El::Move(s)], pl.translated(&vn(s)), Transformable::<D>::translated(&v, &vn(s)))?;
        one("scaled", &[El::Scale(s)], pl.scaled(&vn(s)), Transformable::<D>::scaled(&v, &vn(s)))?;
        let (rot, m) = rotation::<S, D>(r).map_err(|e| ("rotation-arc", e))?;
        one("rotated", &[El::Turn(m)], pl.rotated(&rot), Transformable::<D>::rotated(&v, &rot))?;
        // mixing
        let k = *r.pick(&[0.0, 1.0, 0.5, 0.25, 1.5, -0.5]);
        let mix = |a: A4, b: A4| [0, 1, 2, 3].map(|i| a[i] + (b[i] - a[i]) * k);
        let mut other = VertexPayloadPNU::<S, D>::from_pos(vn(s));
        other.set_normal(vn(q));
        let l = pl.lerped(&other, S::of(k));
        let tol = S::TOL * 64.0;
        if off(a4(HasPosition::<D, _>::pos(&l)), mix(q, s)) > tol
            || off(a4(l.normal()), mix(p, q)) > tol
            || off(a4(l.uv()), mix(uv, [0.0; 4])) > tol
            || off(a4(&Transformable::<D>::lerped(&v, &vn(s), S::of(k))), mix(p, s)) > tol
        {
            return Err(("lerped", format!("{k} between {pl:?} and {other:?}: {l:?}")));
        }
    }
    // comparison
    if !t.is_about(&t, S::of(1e-3)) {
        return Err(("is_about", format!("{t:?} is not about itself")));
    }
    let mut d = [0.0; 4];
    d[r.below(D)] = *r.pick(&[0.5, -0.5]);
    let moved = t.with_translation(vn(d));
    if t.is_about(&moved, S::of(0.25)) || !t.is_about(&moved, S::of(1.0)) {
        return Err(("is_about", format!("{t:?} and the same moved by {d:?}")));
    }
    let mut m = [[0.0; 4]; 4];
    m[r.below(D)][r.below(D)] = *r.pick(&[0.5, -0.5]);
    let a = NdAffine::<S, D>::identity();
    let b = NdAffine::<S, D>::new(SMatrix::<S, D, D>::from_fn(|i, j| S::of(m[i][j] + ID[i][j])), VecN::zeros());
    if a.is_about(&b, S::of(0.25)) || b.is_about(&a, S::of(0.25)) || !a.is_about(&b, S::of(1.0)) {
        return Err(("is_about", format!("{a:?} and {b:?}")));
    }
    Ok(n)
}

// ------------------------------------------------------------------- meshes of a history

fn a3(v: V3) -> A4 {
    [v[0], v[1], v[2], 0.0]
}

/// Whether `got` is `was` with everything moved by `els` (all: every element; else each or not).
fn moved(was: &Snap, got: &Snap, els: &[El], t: &Aff, all: bool) -> Result<u64, String> {
    let mut plain = got.clone();
    let mut n = 0;
    let near = |a: V3, b: V3, dir: bool| off(follow(els, a3(a), dir), a3(b)) <= 1e-12 * size(els, a3(a)) * (2.0 + els.len() as f64);
    for (i, v) in plain.v.iter_mut() {
        let Some(w) = was.v.get(i) else { return Err(format!("vertex {i} appeared")) };
        if v.p == w.p && !all {
            continue;
        }
        if !near(w.p.pos, v.p.pos, false) || !near(w.p.nrm, v.p.nrm, true) || v.p.uv != w.p.uv {
            return Err(format!("vertex {i} {:?} became {:?}, expected {:?}", w.p, v.p, follow(els, a3(w.p.pos), false)));
        }
        n += 1;
        v.p = w.p;
    }
    for (i, e) in plain.e.iter_mut() {
        let Some(w) = was.e.get(i) else { return Err(format!("half-edge {i} appeared")) };
        if e.p == w.p && !all {
            continue;
        }
        let ok = match (w.p.curve, e.p.curve) {
            (Curve::Lin, Curve::Lin) => true,
            (Curve::Quad(a), Curve::Quad(b)) => near(a, b, false),
            (Curve::Cubic(a, c), Curve::Cubic(b, d)) => near(a, b, false) && near(c, d, false),
            _ => false,
        };
        let mut once = w.p;
        once.transform(t);
        if !ok || once.tag != e.p.tag {
            return Err(format!("half-edge {i} {:?} became {:?}", w.p, e.p));
        }
        n += 1;
        e.p = w.p;
    }
    for (i, f) in plain.f.iter_mut() {
        let Some(w) = was.f.get(i) else { return Err(format!("face {i} appeared")) };
        let mut once = w.p;
        once.transform(t);
        if f.p != once && (all || f.p != w.p) {
            return Err(format!("face {i} {:?} became {:?}", w.p, f.p));
        }
        f.p = w.p;
    }
    let mut once = crate::types::FPd { tag: was.mp };
    once.transform(t);
    if plain.mp != once.tag && (all || plain.mp != was.mp) {
        return Err("the mesh's own payload is not moved".into());
    }
    plain.mp = was.mp;
    match diff(was, &plain) {
        Some(d) => Err(d),
        None => Ok(n),
    }
}

fn move_all<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let how = st.arg(2) % 8;
    let fault = st.arg(3);
    let before = ed.cur.clone();
    let mut els = vec![];
    let (mut s, mut rot) = (V3::zeros(), None);
    let t: Aff = match how % 4 {
        1 => {
            let v = quarters(&mut r, 3);
            s = vn(v);
            els.push(El::Move(v));
            Aff::from_translation(s)
        }
        2 => {
            let v = quarters(&mut r, 3);
            s = vn(v);
            els.push(El::Scale(v));
            Aff::from_scale(s)
        }
        3 => match rotation::<f64, 3>(&mut r) {
            Ok((q, m)) => {
                rot = Some(q);
                els.push(El::Turn(m));
                Aff::from_rotation(q)
            }
            Err(e) => return viol("compose:rotation-arc", e),
        },
        _ => match build::<f64, 3>(&mut r, 1, &mut els) {
            Ok(t) => t,
            Err(e) => return viol("compose:rotation-arc", e),
        },
    };
    ed.last = format!("move {how} by {els:?}");
    ed.log = None;
    if fault > 0 {
        arm(fault);
    }
    let m = &mut ed.mesh;
    let res: Res<Option<M<I>>> = call(|| {
        match how {
            0 => m.transform(&t),
            1 => m.translate(&s),
            2 => m.scale(&s),
            3 => m.rotate(&rot.unwrap()),
            4 => return Some(m.transformed(&t)),
            5 => return Some(m.translated(&s)),
            6 => return Some(m.scaled(&s)),
            _ => return Some(m.rotated(&rot.unwrap())),
        };
        None
    });
    let fired = fault > 0 && !disarm();
    let name = ["transform", "translate", "scale", "rotate", "transformed", "translated", "scaled", "rotated"][how as usize];
    let after = match snapshot(&ed.mesh) {
        Ok(s) => s,
        Err(e) => return viol(format!("{name}:unreadable"), e),
    };
    ed.cur = after.clone();
    if let Err(e) = integrity(&after) {
        return viol(format!("{name}:malformed"), e);
    }
    ed.stats.state(after.shape_hash());
    let bad = |key: &str, e: String| viol(format!("{name}:{key}"), format!("by {els:?}: {e}"));
    let copy = match res {
        Res::Ok(c) => {
            if fired {
                return bad("fault-swallowed", "a panic of a payload did not propagate".into());
            }
            ed.stats.c("move:ok");
            c
        }
        Res::Injected => {
            ed.stats.c("move:injected");
            return match moved(&before, &after, &els, &t, false) {
                Err(e) => bad("half-moved", e),
                Ok(_) if how >= 4 && diff(&before, &after).is_some() => bad("changed-original", "the receiver changed".into()),
                Ok(_) => Ok(()),
            };
        }
        o => return bad("failed", format!("{o:?}")),
    };
    let result = match &copy {
        None => after.clone(),
        Some(c) => {
            if let Some(d) = diff(&before, &after) {
                return bad("changed-original", d);
            }
            match snapshot(c) {
                Ok(s) => s,
                Err(e) => return bad("unreadable", e),
            }
        }
    };
    match moved(&before, &result, &els, &t, true) {
        Ok(n) => ed.stats.add("move:elements", n),
        Err(e) => return bad("elements", e),
    }
    // the steps one by one on another copy
    if how % 4 == 0 && els.len() > 1 {
        let c = call(|| {
            let mut c = copy.unwrap_or_else(|| ed.mesh.clone());
            for e in &els {
                c.transform(&elementary::<f64, 3>(e));
            }
            c
        });
        let Res::Ok(c) = c else { return bad("steps-failed", "applying the steps one by one failed".into()) };
        let Ok(s) = snapshot(&c) else { return bad("unreadable", "after the steps".into()) };
        let mut twice = els.clone();
        twice.extend(els.iter().cloned());
        for (i, v) in &s.v {
            let w = &before.v[i].p;
            let want = follow(&twice, a3(w.pos), false);
            if off(want, a3(v.p.pos)) > 1e-12 * size(&twice, a3(w.pos)) * (2.0 + twice.len() as f64) {
                return bad("steps-one-by-one", format!("vertex {i} at {:?}, expected {want:?}", v.p.pos));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- the crate's own meshes and curves

fn real<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let Some(log) = ed.log.clone() else { return Ok(()) };
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let mut m = Mesh2d64Curved::default();
    for q in &log {
        if let Res::Budget = call(|| perform2(&mut m, q)) {
            return Ok(());
        }
    }
    let Ok(plain) = topo2(&m) else { return Ok(()) };
    if integrity(&plain).is_err() {
        return Ok(());
    }
    for (e, c) in &draw_curves(&plain, st.arg(2), st.arg(3) % 9, true) {
        let ct = match c {
            Curve::Lin => C2::Linear,
            Curve::Quad(a) => C2::QuadraticBezier(down(*a)),
            Curve::Cubic(a, b) => C2::CubicBezier(down(*a), down(*b)),
        };
        CurvedEdge::set_curve_type(m.edge_mut(*e), ct);
    }
    let Ok(before) = topo2(&m) else { return Ok(()) };
    let mut els = vec![];
    let t = match call(|| build::<f64, 2>(&mut r, 2, &mut els)) {
        Res::Ok(Ok(t)) => t,
        o => return viol("real:rotation-arc", format!("{o:?}")),
    };
    let n = 1 + r.below(6);
    let k = r.below(9) as f64 / 8.0;
    // points of every edge before and after
    let trace = |m: &Mesh2d64Curved| {
        call(|| {
            m.edges()
                .map(|e| {
                    let c = CurvedEdge::curve_type(e);
                    let mut ps = vec![c.point_at(e, m, k)];
                    ps.extend(e.flatten_uniform(n, m));
                    (e.id(), ps)
                })
                .collect::<Vec<_>>()
        })
    };
    let Res::Ok(old) = trace(&m) else { return viol("curve:failed", "reading points of curves failed") };
    let q2 = |v: &VecN<f64, 2>| [v[0], v[1], 0.0, 0.0];
    for (e, ps) in &old {
        let se = &before.e[e];
        let (a, b) = (before.v[&se.origin].p.pos, before.v[&before.e[&se.twin].origin].p.pos);
        if ps.len() != n {
            return viol("curve:flatten_uniform", format!("{} inner points for {n} pieces", ps.len() - 1));
        }
        for (i, p) in ps.iter().enumerate() {
            let x = if i == 0 { k } else { i as f64 / n as f64 };
            let y = 1.0 - x;
            let want = match se.p.curve {
                Curve::Lin => a * y + b * x,
                Curve::Quad(c) => a * y * y + c * 2.0 * x * y + b * x * x,
                Curve::Cubic(c, d) => a * y * y * y + c * 3.0 * x * y * y + d * 3.0 * x * x * y + b * x * x * x,
            };
            if off(q2(p), a3(want)) > 1e-11 {
                return viol(
                    if i == 0 { "curve:point_at" } else { "curve:flatten_uniform" },
                    format!("half-edge {e} {:?} from {a:?} to {b:?} at {x}: {p:?}, expected {want:?}", se.p.curve),
                );
            }
            ed.stats.c("curve:points");
        }
    }
    let res = call(|| {
        let copy = m.transformed(&t);
        m.transform(&t);
        copy
    });
    let Res::Ok(copy) = res else { return viol("real:failed", format!("{els:?}: {}", last_panic())) };
    let (Ok(a), Ok(b)) = (topo2(&m), topo2(&copy)) else { return viol("real:unreadable", "after a transformation") };
    if let Some(d) = diff(&a, &b) {
        return viol("real:transformed-differs-from-transform", d);
    }
    let near = |p: V3, q: V3| off(follow(&els, a3(p), false), a3(q)) <= 1e-12 * size(&els, a3(p)) * (2.0 + els.len() as f64);
    let mut back = a.clone();
    for (i, v) in back.v.iter_mut() {
        let w = before.v.get(i).map(|w| w.p);
        if !w.is_some_and(|w| near(w.pos, v.p.pos)) {
            return viol("real:vertex", format!("{els:?}: vertex {i} {w:?} became {:?}", v.p));
        }
        v.p = w.unwrap();
    }
    for (i, e) in back.e.iter_mut() {
        let w = before.e.get(i).map(|w| w.p);
        let ok = match (w.map(|w| w.curve), e.p.curve) {
            (Some(Curve::Lin), Curve::Lin) => true,
            (Some(Curve::Quad(a)), Curve::Quad(b)) => near(a, b),
            (Some(Curve::Cubic(a, c)), Curve::Cubic(b, d)) => near(a, b) && near(c, d),
            _ => false,
        };
        if !ok {
            return viol("real:curve", format!("{els:?}: half-edge {i} {w:?} became {:?}", e.p));
        }
        e.p = w.unwrap();
    }
    if let Some(d) = diff(&before, &back) {
        return viol("real:structure", d);
    }
    // the curve of the moved mesh is the moved curve
    let Res::Ok(new) = trace(&m) else { return viol("curve:failed", "reading points of moved curves failed") };
    for ((e, p), (_, q)) in old.iter().zip(&new) {
        for (p, q) in p.iter().zip(q) {
            if off(follow(&els, q2(p), false), q2(q)) > 1e-11 * size(&els, q2(p)) * (4.0 + els.len() as f64) {
                return viol("curve:moved", format!("{els:?}: a point {p:?} of half-edge {e} became {q:?}"));
            }
        }
    }
    ed.stats.c("real:ok");
    Ok(())
}

// ------------------------------------------------------------------- vectors

fn vectors<I: Ix>(ed: &mut Editor<I>, st: &Step) -> Result<(), Violation> {
    let mut r = Rng::new(st.arg(0) * 1_000_003 + st.arg(1));
    let res = call(|| {
        match r.below(5) {
            0 => anyd::<f64, 2>(&mut r)?,
            1 => anyd::<f64, 4>(&mut r)?,
            2 => anyd::<f32, 3>(&mut r)?,
            3 => anyd::<f32, 2>(&mut r)?,
            _ => anyd::<f64, 3>(&mut r)?,
        }
        if r.chance(1, 2) {
            flat::<f64>(&mut r)?;
            space::<f64>(&mut r)?;
            scalars::<f64>(&mut r)
        } else {
            flat::<f32>(&mut r)?;
            space::<f32>(&mut r)?;
            scalars::<f32>(&mut r)
        }
    });
    match res {
        Res::Ok(Ok(())) => {
            ed.stats.c("vectors:ok");
            Ok(())
        }
        Res::Ok(Err(e)) => viol(format!("vectors:{}", e.0), e.1),
        o => viol("vectors:failed", format!("{o:?}")),
    }
}

fn want(what: &'static str, got: f64, exp: f64, tol: f64, about: impl std::fmt::Debug) -> Result<(), Why> {
    if !((got - exp).abs() <= tol) {
        return Err((what, format!("{what} of {about:?} is {got}, expected {exp}")));
    }
    Ok(())
}
fn wantv(what: &'static str, got: A4, exp: A4, tol: f64, about: impl std::fmt::Debug) -> Result<(), Why> {
    if off(got, exp) > tol {
        return Err((what, format!("{what} of {about:?} is {got:?}, expected {exp:?}")));
    }
    Ok(())
}

fn anyd<S: Num, const D: usize>(r: &mut Rng) -> Result<(), Why>
where
    VecN<S, D>: Vector<S, D>,
{
    let (a, b) = (quarters(r, D), if r.chance(1, 6) { [0.0; 4] } else { quarters(r, D) });
    let (x, y): (VecN<S, D>, VecN<S, D>) = (vn(a), vn(b));
    let tol = S::TOL * 200.0;
    let f = |s: S| Scalar::to_f64(s);
    let sub = [0, 1, 2, 3].map(|i| a[i] - b[i]);
    let ab = (&a[..D], &b[..D]);
    want("length_squared", f(Vector::length_squared(&x)), dot(&a, &a), tol, &ab)?;
    want("length", f(Vector::length(&x)), dot(&a, &a).sqrt(), tol, &ab)?;
    want("dot", f(Vector::dot(&x, &y)), dot(&a, &b), tol, &ab)?;
    want("distance_squared", f(Vector::distance_squared(&x, &y)), dot(&sub, &sub), tol, &ab)?;
    want("distance", f(Vector::distance(&x, &y)), dot(&sub, &sub).sqrt(), tol, &ab)?;
    wantv("coordinates", [Vector::x(&x), Vector::y(&x), Vector::z(&x), Vector::w(&x)].map(f), a, 0.0, &ab)?;
    let l = dot(&a, &a).sqrt();
    wantv("normalize", a4(&Vector::normalize(&x)), if l == 0.0 { a } else { a.map(|v| v / l) }, tol, &ab)?;
    let first = |k: usize| [0, 1, 2, 3].map(|i| if i < k && i < D { a[i] } else { 0.0 });
    let s = |i: usize| S::of(a[i]);
    wantv("from_x", a4(&<VecN<S, D> as Vector<S, D>>::from_x(s(0))), first(1), 0.0, &ab)?;
    wantv("from_xy", a4(&<VecN<S, D> as Vector<S, D>>::from_xy(s(0), s(1))), first(2), 0.0, &ab)?;
    wantv("from_xyz", a4(&<VecN<S, D> as Vector<S, D>>::from_xyz(s(0), s(1), s(2))), first(3), 0.0, &ab)?;
    let mut sp = [0.0; 4];
    sp[..D].fill(a[0]);
    wantv("splat", a4(&<VecN<S, D> as Vector<S, D>>::splat(s(0))), sp, 0.0, &ab)?;
    let v2: Vec2<S> = Vector::vec2(&x);
    wantv("vec2", a4(&v2), [a[0], a[1], 0.0, 0.0], 0.0, &ab)?;
    let lb = dot(&b, &b).sqrt();
    let angle = match D {
        _ if l == 0.0 || lb == 0.0 => 0.0,
        2 => (a[0] * b[1] - a[1] * b[0]).atan2(dot(&a, &b)),
        _ => (dot(&a, &b) / l / lb).clamp(-1.0, 1.0).acos(),
    };
    let g = f(Vector::angle_between(&x, y));
    // close to parallel the arc cosine is only as good as the square root of the precision
    let ta = if D == 2 { tol } else { S::TOL.sqrt() * 2.0 };
    if g.is_nan() || (g - angle).abs() > ta && ((g - angle).abs() - 2.0 * std::f64::consts::PI).abs() > ta {
        return Err(("angle_between", format!("{ab:?}: {g}, expected {angle}")));
    }
    let most = (0..D).map(|i| sub[i].abs()).fold(0.0, f64::max);
    if most > 0.0 && Vector::is_about(&x, &y, S::of(most * 0.5)) || !Vector::is_about(&x, &y, S::of(most * 2.0 + 0.25)) {
        return Err(("is_about", format!("{ab:?}")));
    }
    let vs: Vec<A4> = (0..1 + r.below(6)).map(|_| quarters(r, D)).collect();
    let n = vs.len() as f64;
    let sum = vs.iter().fold([0.0; 4], |s, v| [0, 1, 2, 3].map(|i| s[i] + v[i]));
    let it = || vs.iter().map(|v| vn::<S, D>(*v));
    wantv("stable_sum", a4(&VectorIteratorExt::stable_sum(it())), sum, tol, &vs)?;
    wantv("stable_mean", a4(&VectorIteratorExt::stable_mean(it())), sum.map(|x| x / n), tol, &vs)?;
    Ok(())
}

fn flat<S: Num>(r: &mut Rng) -> Result<(), Why> {
    let [a, b, c, p] = [0; 4].map(|_| quarters(r, 2));
    let v = |x: A4| Vec2::<S>::new(S::of(x[0]), S::of(x[1]));
    let cr = |u: A4, w: A4| u[0] * w[1] - u[1] * w[0];
    let sub = |u: A4, w: A4| [0, 1, 2, 3].map(|i| u[i] - w[i]);
    let f = |s: S| Scalar::to_f64(s);
    want("perp_dot", f(Vector2D::perp_dot(&v(a), &v(b))), cr(a, b), S::TOL * 50.0, (a, b))?;
    // quarters: products are exact, so are the signs
    let turn = cr(sub(b, a), sub(c, b));
    if turn != 0.0 && Vector2D::convex(&v(b), v(a), v(c)) != (turn > 0.0) {
        return Err(("convex", format!("{b:?} between {a:?} and {c:?}")));
    }
    let area = cr(sub(b, a), sub(c, a));
    if Vector2D::collinear(&v(c), v(a), v(b), S::of(0.03)) != (area == 0.0) {
        return Err(("collinear", format!("{c:?} with {a:?} and {b:?}")));
    }
    let (u, w) = (sub(a, b), sub(c, b));
    if u != [0.0; 4] && w != [0.0; 4] {
        want("angle_tri", f(Vector2D::angle_tri(&v(b), v(a), v(c))), cr(u, w).atan2(dot(&u, &w)), S::TOL * 10.0, (a, b, c)).or_else(|e| {
            if cr(u, w) == 0.0 { Ok(()) } else { Err(e) }
        })?;
    }
    let s = [cr(sub(b, a), sub(p, a)), cr(sub(c, b), sub(p, b)), cr(sub(a, c), sub(p, c))];
    let inside = s.iter().all(|x| *x > 0.0) || s.iter().all(|x| *x < 0.0);
    if s.iter().all(|x| *x != 0.0) && Vector2D::is_inside_triangle(&v(p), v(a), v(b), v(c)) != inside {
        return Err(("is_inside_triangle", format!("{p:?} in {a:?} {b:?} {c:?}")));
    }
    wantv("xy", a4(&Vector2D::xy(&v(a))), a, 0.0, a)?;
    wantv("yx", a4(&Vector2D::yx(&v(a))), [a[1], a[0], 0.0, 0.0], 0.0, a)
}

fn space<S: Num>(r: &mut Rng) -> Result<(), Why> {
    let [a, b, c] = [0; 3].map(|_| quarters(r, 3));
    let v = |x: A4| Vec3::<S>::new(S::of(x[0]), S::of(x[1]), S::of(x[2]));
    let x = |u: A4, w: A4| [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0], 0.0];
    let sub = |u: A4, w: A4| [0, 1, 2, 3].map(|i| u[i] - w[i]);
    let tol = S::TOL * 400.0;
    wantv("cross", a4(&Vector3D::cross(&v(a), &v(b))), x(a, b), tol, (a, b))?;
    wantv("normal", a4(&Vector3D::normal(&v(a), v(b), v(c))), x(sub(a, b), sub(c, b)), tol, (a, b, c))?;
    for (n, g, i) in [
        ("xyz", Vector3D::xyz(&v(a)), [0, 1, 2]),
        ("xzy", Vector3D::xzy(&v(a)), [0, 2, 1]),
        ("yxz", Vector3D::yxz(&v(a)), [1, 0, 2]),
        ("yzx", Vector3D::yzx(&v(a)), [1, 2, 0]),
        ("zxy", Vector3D::zxy(&v(a)), [2, 0, 1]),
        ("zyx", Vector3D::zyx(&v(a)), [2, 1, 0]),
    ] {
        wantv(n, a4(&g), [a[i[0]], a[i[1]], a[i[2]], 0.0], 0.0, a)?;
    }
    let f = |s: S| Scalar::to_f64(s);
    wantv("to_array", { let t = Vector3D::to_array(&v(a)).map(f); [t[0], t[1], t[2], 0.0] }, a, 0.0, a)?;
    wantv("tuple", { let t = Vector3D::tuple(&v(a)); [f(t.0), f(t.1), f(t.2), 0.0] }, a, 0.0, a)?;
    // spherical coordinates and back
    let s = Vector3D::spherical(&v(a));
    want("spherical-radius", f(Spherical3d::r(&s)), dot(&a, &a).sqrt(), tol, a)?;
    wantv("spherical-and-back", a4(&Spherical3d::cartesian(&s)), a, S::TOL.sqrt() * 8.0, a)?;
    // the area vector of a polygon
    let n = 3 + r.below(5);
    let ps: Vec<A4> = (0..n).map(|_| quarters(r, 3)).collect();
    let area = (0..n).fold([0.0; 4], |s, i| {
        let c = x(ps[i], ps[(i + 1) % n]);
        [0, 1, 2, 3].map(|k| s[k] + c[k] / 2.0)
    });
    let pv: Vec<Vec3<S>> = ps.iter().map(|p| v(*p)).collect();
    wantv("polygon-normal", a4(&Vector3DIteratorExt::normal(pv.iter().copied())), area, tol, &ps)?;
    // great circles
    let (la, lb) = (dot(&a, &a).sqrt(), dot(&b, &b).sqrt());
    if la > 0.0 && lb > 0.0 {
        let (u, w) = (a.map(|x| x / la), b.map(|x| x / lb));
        let g = Vector3D::slerp(&Vector::normalize(&v(a)), &Vector::normalize(&v(a)), S::of(0.5));
        wantv("slerp", a4(&g), u, S::TOL.sqrt(), (a, a))?;
        let th = dot(&u, &w).clamp(-1.0, 1.0).acos();
        if th > 0.05 && th < 3.0 {
            let k = r.below(9) as f64 / 8.0;
            let e = [0, 1, 2, 3].map(|i| (u[i] * ((1.0 - k) * th).sin() + w[i] * (k * th).sin()) / th.sin());
            let g = Vector3D::slerp(&Vector::normalize(&v(a)), &Vector::normalize(&v(b)), S::of(k));
            wantv("slerp", a4(&g), e, S::TOL * 1000.0, (a, b, k))?;
        }
    }
    Ok(())
}

fn scalars<S: Num>(r: &mut Rng) -> Result<(), Why> {
    let f = |s: S| Scalar::to_f64(s);
    let q = |r: &mut Rng| r.range(-40, 40) as f64 / 4.0;
    // small numbers must survive large ones that cancel
    let big = if S::TOL > 1e-9 { (1u64 << 30) as f64 } else { (1u64 << 60) as f64 };
    let mut xs: Vec<f64> = (0..r.below(5)).map(|_| q(r)).collect();
    let exact: f64 = xs.iter().sum();
    for s in [big, -big] {
        let at = r.below(xs.len() + 1);
        xs.insert(at, s);
    }
    let it = || xs.iter().map(|x| S::of(*x));
    want("stable_sum", f(ScalarIteratorExt::stable_sum(it())), exact, 0.25 * 0.0 + S::TOL * 100.0, &xs)?;
    want("stable_mean", f(ScalarIteratorExt::stable_mean(it())), exact / xs.len() as f64, S::TOL * 100.0, &xs)?;
    let (n, m) = neumaier_summation(it());
    want("neumaier_summation", f(n), exact, S::TOL * 100.0, &xs)?;
    if m != xs.len() {
        return Err(("neumaier_summation", format!("counted {m} of {}", xs.len())));
    }
    let small: Vec<f64> = (0..r.below(7)).map(|_| q(r)).collect();
    let (k, m) = kahan_summation(small.iter().map(|x| VecN::<S, 2>::new(S::of(*x), S::of(-*x))));
    wantv("kahan_summation", a4(&k), [small.iter().sum(), -small.iter().sum::<f64>(), 0.0, 0.0], S::TOL * 100.0, &small)?;
    if m != small.len() {
        return Err(("kahan_summation", format!("counted {m} of {}", small.len())));
    }
    // many small numbers must not get lost next to a large one
    let (tiny, n) = (if S::TOL > 1e-9 { 2f64.powi(-24) } else { 2f64.powi(-53) }, 1 + r.below(4096));
    let lost = || (0..=n).map(|i| S::of(if i == 0 { 1.0 } else { tiny }));
    let exact = tiny * n as f64;
    let (k, _) = kahan_summation(lost().map(|x| VecN::<S, 2>::new(x, S::of(0.0))));
    let (m, _) = neumaier_summation(lost());
    for (what, got) in [("kahan_summation", k[0]), ("neumaier_summation", m)] {
        want(what, f(got) - 1.0, exact, tiny * 4.0, n)?;
    }
    let [a, b, c] = [0; 3].map(|_| q(r));
    want("lerp", f(Scalar::lerp(&S::of(a), S::of(b), S::of(0.25))), a + (b - a) * 0.25, S::TOL * 50.0, (a, b))?;
    let (lo, hi) = (b.min(c), b.max(c));
    want("clamp", f(Scalar::clamp(S::of(a), S::of(lo), S::of(hi))), a.max(lo).min(hi), 0.0, (a, lo, hi))?;
    want("abs", f(Scalar::abs(S::of(a))), a.abs(), 0.0, a)?;
    want("min", f(Scalar::min(&S::of(a), S::of(b))), a.min(b), 0.0, (a, b))?;
    want("max", f(Scalar::max(&S::of(a), S::of(b))), a.max(b), 0.0, (a, b))?;
    if Scalar::is_positive(S::of(a)) != (a > 0.0) && a != 0.0 || Scalar::is_negative(S::of(a)) != (a < 0.0) && a != 0.0 {
        return Err(("sign", format!("{a}")));
    }
    if Scalar::is_about(&S::of(a), S::of(a + 0.5), S::of(0.25)) || !Scalar::is_about(&S::of(a), S::of(a + 0.125), S::of(0.25)) {
        return Err(("is_about", format!("{a}")));
    }
    let m: Vec<f64> = (0..9).map(|_| r.range(-6, 6) as f64).collect();
    let d = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
    let s = |i: usize| S::of(m[i]);
    want("det3", f(S::det3(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8))), d, S::TOL * 1000.0, &m)?;
    let mut o: Vec<OrderedFloats<S>> = small.iter().map(|x| OrderedFloats::new(S::of(*x))).collect();
    o.sort();
    let mut srt = small.clone();
    srt.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if o != srt.iter().map(|x| OrderedFloats::new(S::of(*x))).collect::<Vec<_>>() {
        return Err(("OrderedFloats", format!("{small:?} sorted as {o:?}")));
    }
    Ok(())
}
