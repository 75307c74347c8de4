//! Simulator-side geometry: polygon workloads, classification of faces, the triangulation oracle.

use crate::rng::Rng;
use crate::snap::*;
use crate::types::*;
use std::collections::BTreeMap;

pub type P2 = [f64; 2];

pub fn cross2(a: P2, b: P2, c: P2) -> f64 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

pub fn area2(p: &[P2]) -> f64 {
    let n = p.len();
    (0..n).map(|i| p[i][0] * p[(i + 1) % n][1] - p[(i + 1) % n][0] * p[i][1]).sum::<f64>()
}

fn seg_dist(p: P2, a: P2, b: P2) -> f64 {
    let (dx, dy) = (b[0] - a[0], b[1] - a[1]);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l).clamp(0.0, 1.0) };
    ((p[0] - a[0] - t * dx).powi(2) + (p[1] - a[1] - t * dy).powi(2)).sqrt()
}

fn segs_cross(a: P2, b: P2, c: P2, d: P2) -> bool {
    let s = |x: f64| if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
    s(cross2(a, b, c)) * s(cross2(a, b, d)) < 0 && s(cross2(c, d, a)) * s(cross2(c, d, b)) < 0
}

#[derive(Clone)]
pub struct Shape {
    pub simple: bool,
    pub convex: bool,
    /// smallest distance of a vertex to a side it is not part of, relative to the diameter
    pub clearance: f64,
    /// smallest |sin| of a corner
    pub sharp: f64,
    /// smallest doubled area of a triangle of corners, relative to the squared diameter
    pub triple: f64,
    pub diam: f64,
}

pub fn shape(p: &[P2]) -> Shape {
    let n = p.len();
    let mut diam: f64 = 0.0;
    for i in 0..n {
        for j in 0..i {
            diam = diam.max(((p[i][0] - p[j][0]).powi(2) + (p[i][1] - p[j][1]).powi(2)).sqrt());
        }
    }
    let mut s = Shape { simple: diam > 0.0, convex: true, clearance: f64::MAX, sharp: f64::MAX, triple: f64::MAX, diam };
    if diam == 0.0 {
        return s;
    }
    for i in 0..n {
        for j in 0..i {
            for k in 0..j {
                s.triple = s.triple.min(cross2(p[i], p[j], p[k]).abs() / (diam * diam));
            }
        }
    }
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        for j in 0..n {
            if j != i && j != (i + 1) % n {
                s.clearance = s.clearance.min(seg_dist(p[j], a, b) / diam);
            }
            let (k, l) = (j, (j + 1) % n);
            if k != i && k != (i + 1) % n && l != i && segs_cross(a, b, p[k], p[l]) {
                s.simple = false;
            }
        }
        let c = p[(i + 2) % n];
        let l1 = ((b[0] - a[0]).powi(2) + (b[1] - a[1]).powi(2)).sqrt();
        let l2 = ((c[0] - b[0]).powi(2) + (c[1] - b[1]).powi(2)).sqrt();
        let si = if l1 * l2 == 0.0 { 0.0 } else { cross2(a, b, c) / (l1 * l2) };
        s.sharp = s.sharp.min(si.abs());
        if l1 == 0.0 {
            s.simple = false;
        }
    }
    if s.clearance <= 0.0 {
        s.simple = false;
    }
    let sg: Vec<bool> = (0..n).map(|i| cross2(p[i], p[(i + 1) % n], p[(i + 2) % n]) > 0.0).collect();
    s.convex = s.simple && sg.iter().all(|x| *x == sg[0]);
    s
}

/// A polygon workload in general position unless `kind` says otherwise; counter-clockwise.
pub fn polygon(r: &mut Rng, kind: u64, n: usize) -> Vec<P2> {
    let n = n.max(3);
    let tau = std::f64::consts::TAU;
    for _try in 0..40 {
        let off = r.f() * tau;
        let p: Vec<P2> = match kind % 8 {
            0 => {
                // convex: ellipse, jittered angles
                let b = 0.4 + r.f() * 0.6;
                (0..n)
                    .map(|k| {
                        let t = off + (k as f64 + 0.5 * (r.f() - 0.5)) / n as f64 * tau;
                        [5.0 * t.cos(), 5.0 * b * t.sin()]
                    })
                    .collect()
            }
            1 => (0..n)
                .map(|k| {
                    let t = off + (k as f64 + 0.6 * (r.f() - 0.5)) / n as f64 * tau;
                    let d = 1.0 + 4.0 * r.f();
                    [d * t.cos(), d * t.sin()]
                })
                .collect(),
            2 => {
                // any simple polygon: random points, crossings removed by reversal
                let mut p: Vec<P2> = (0..n).map(|_| [r.f() * 10.0, r.f() * 10.0]).collect();
                let mut guard = 0;
                loop {
                    let mut found = None;
                    'o: for i in 0..n {
                        for j in i + 1..n {
                            if segs_cross(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]) {
                                found = Some((i, j));
                                break 'o;
                            }
                        }
                    }
                    guard += 1;
                    match found {
                        Some((i, j)) if guard < 4000 => p[i + 1..=j].reverse(),
                        _ => break,
                    }
                }
                p
            }
            3 => {
                // comb: many splits and merges for a sweep
                let t = n.max(5) / 2;
                let mut p = vec![];
                for k in 0..t {
                    p.push([k as f64 + 0.3 * r.f(), if k % 2 == 0 { r.f() } else { 6.0 + 3.0 * r.f() }]);
                }
                let mut q = vec![];
                for k in 0..n - t {
                    let x = k as f64 * (t as f64 - 1.0) / (n - t).max(1) as f64;
                    q.push([x, 10.0 + 2.0 * r.f()]);
                }
                q.reverse();
                p.extend(q);
                p
            }
            4 => {
                // spiral
                let h = (n / 2).max(2);
                let mut p = vec![];
                let mut q = vec![];
                for k in 0..h {
                    let t = off + k as f64 * 0.7;
                    let d = 2.0 + k as f64 * 0.35;
                    p.push([d * t.cos(), d * t.sin()]);
                }
                for k in 0..n - h {
                    let t = off + 0.1 * r.f() + k as f64 * 0.7 * (h as f64 - 1.0) / (n - h).max(1) as f64;
                    let d = 2.0 - 1.2 + (t - off) / 0.7 * 0.35;
                    q.push([d * t.cos(), d * t.sin()]);
                }
                q.reverse();
                p.extend(q);
                p
            }
            5 => {
                // y-monotone with long thin parts
                let mut ys: Vec<f64> = (0..n).map(|k| k as f64 + 0.8 * r.f()).collect();
                let (top, bot) = (ys.remove(n - 1), ys.remove(0));
                let mut l = vec![];
                let mut rr = vec![];
                for y in ys {
                    if r.chance(1, 2) {
                        l.push([-0.5 - 4.0 * r.f(), y]);
                    } else {
                        rr.push([0.5 + 4.0 * r.f(), y]);
                    }
                }
                let mut p: Vec<P2> = vec![[0.0, bot]];
                p.extend(rr);
                p.push([0.0, top]);
                l.reverse();
                p.extend(l);
                let c = off.cos();
                let s = off.sin();
                if r.chance(1, 2) {
                    p.iter().map(|q| [q[0] * c - q[1] * s, q[0] * s + q[1] * c]).collect()
                } else {
                    p
                }
            }
            6 => {
                // histogram: axis-parallel sides, equal coordinates everywhere
                let t = (n.max(4) - 2) / 2;
                let mut hs: Vec<f64> = vec![];
                for _ in 0..t.max(1) {
                    let mut h = 1.0 + r.below(5) as f64;
                    while hs.last() == Some(&h) {
                        h = 1.0 + r.below(5) as f64;
                    }
                    hs.push(h);
                }
                let w = hs.len() as f64;
                let mut p = vec![[0.0, 0.0], [w, 0.0]];
                for (k, h) in hs.iter().enumerate().rev() {
                    p.push([k as f64 + 1.0, *h]);
                    p.push([k as f64, *h]);
                }
                p
            }
            _ => {
                // regular polygon
                (0..n)
                    .map(|k| {
                        let t = k as f64 / n as f64 * tau;
                        [4.0 * t.cos(), 4.0 * t.sin()]
                    })
                    .collect()
            }
        };
        let mut p = p;
        if area2(&p) < 0.0 {
            p.reverse();
        }
        let s = shape(&p);
        if s.simple && (s.clearance > 4e-3 || kind % 8 >= 6) {
            return p;
        }
    }
    (0..n)
        .map(|k| {
            let t = (k as f64 + 0.1) / n as f64 * tau;
            [3.0 * t.cos(), 4.0 * t.sin()]
        })
        .collect()
}

/// A rigid placement of the xy plane in space.
#[derive(Clone, Copy)]
pub struct Place {
    pub x: V3,
    pub y: V3,
    pub o: V3,
}
pub fn placement(r: &mut Rng, kind: u64) -> Place {
    let e = [V3::new(1.0, 0.0, 0.0), V3::new(0.0, 1.0, 0.0), V3::new(0.0, 0.0, 1.0)];
    let o = V3::new(r.range(-20, 20) as f64, r.range(-20, 20) as f64, r.range(-20, 20) as f64);
    match kind % 4 {
        0 => Place { x: e[0], y: e[1], o: V3::zeros() },
        1 => {
            // axis planes, both orientations
            let i = r.below(3);
            let j = (i + 1 + r.below(2)) % 3;
            let s = if r.chance(1, 2) { 1.0 } else { -1.0 };
            Place { x: e[i] * s, y: e[j], o }
        }
        _ => loop {
            let u = V3::new(r.f() - 0.5, r.f() - 0.5, r.f() - 0.5);
            let v = V3::new(r.f() - 0.5, r.f() - 0.5, r.f() - 0.5);
            let (lu, lv) = (u.dot(&u).sqrt(), v.dot(&v).sqrt());
            if lu < 0.1 || lv < 0.1 {
                continue;
            }
            let x = u / lu;
            let w = v - x * v.dot(&x);
            let lw = w.dot(&w).sqrt();
            if lw < 0.1 {
                continue;
            }
            return Place { x, y: w / lw, o };
        },
    }
}
impl Place {
    pub fn at(&self, p: P2) -> V3 {
        self.o + self.x * p[0] + self.y * p[1]
    }
}

pub fn newell(p: &[V3]) -> V3 {
    let mut n = V3::zeros();
    let o = p[0];
    for i in 0..p.len() {
        let a = p[i] - o;
        let b = p[(i + 1) % p.len()] - o;
        n += a.cross(&b);
    }
    n
}

/// The face's corners in its own plane (counter-clockwise in loop order), or None if the face
/// has no usable plane.
pub struct FaceGeo {
    pub verts: Vec<usize>,
    pub p: Vec<P2>,
    pub normal: V3,
    pub planar: f64,
    pub shape: Shape,
}
pub fn face_geo(s: &Snap, f: usize) -> Option<FaceGeo> {
    let verts = s.face_verts(f);
    if verts.len() < 3 {
        return None;
    }
    let mut d = verts.clone();
    d.sort();
    d.dedup();
    if d.len() != verts.len() {
        return None;
    }
    let pos: Vec<V3> = verts.iter().map(|v| s.v[v].p.pos).collect();
    if pos.iter().any(|p| !(p[0].abs() < 1e4 && p[1].abs() < 1e4 && p[2].abs() < 1e4)) {
        return None;
    }
    let n = newell(&pos);
    let l = n.dot(&n).sqrt();
    if l < 1e-6 {
        return None;
    }
    let n = n / l;
    let mut off: f64 = 0.0;
    for p in &pos {
        off = off.max((p - pos[0]).dot(&n).abs());
    }
    // any orthonormal frame (x, y, n)
    let t = if n[0].abs() < 0.6 { V3::new(1.0, 0.0, 0.0) } else { V3::new(0.0, 1.0, 0.0) };
    let x = t - n * t.dot(&n);
    let x = x / x.dot(&x).sqrt();
    let y = n.cross(&x);
    let p: Vec<P2> = pos.iter().map(|q| [(q - pos[0]).dot(&x), (q - pos[0]).dot(&y)]).collect();
    let shape = shape(&p);
    Some(FaceGeo { verts, planar: off / shape.diam.max(1e-9), p, normal: n, shape })
}

/// Decides whether `tris` (vertex ids) triangulate the face: count, own vertices, sides, winding,
/// area. `Err` names what is wrong.
pub fn check_triangulation(g: &FaceGeo, tris: &[[usize; 3]]) -> Result<(), String> {
    let n = g.verts.len();
    if tris.len() != n - 2 {
        return Err(format!("count: {} triangles for {} corners", tris.len(), n));
    }
    let idx: BTreeMap<usize, usize> = g.verts.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut sides: BTreeMap<(usize, usize), i32> = BTreeMap::new();
    let (mut pos, mut neg, mut sum) = (0.0f64, 0.0f64, 0.0f64);
    for t in tris {
        let mut q = [0; 3];
        for k in 0..3 {
            q[k] = *idx.get(&t[k]).ok_or_else(|| format!("foreign: vertex {} is not a corner of the face", t[k]))?;
        }
        if q[0] == q[1] || q[1] == q[2] || q[0] == q[2] {
            return Err(format!("repeat: triangle {t:?} repeats a vertex"));
        }
        let a = cross2(g.p[q[0]], g.p[q[1]], g.p[q[2]]);
        pos = pos.max(a);
        neg = neg.min(a);
        sum += a;
        for k in 0..3 {
            *sides.entry((q[k], q[(k + 1) % 3])).or_default() += 1;
        }
    }
    let tol = 1e-7 * g.shape.diam * g.shape.diam;
    if pos > tol && neg < -tol {
        return Err("winding: triangles of both windings".into());
    }
    let want = area2(&g.p);
    let fwd = sum > 0.0;
    if (sum.abs() - want.abs()).abs() > 1e-6 * g.shape.diam * g.shape.diam {
        return Err(format!("area: triangles cover {} of {}", sum.abs() / 2.0, want.abs() / 2.0));
    }
    for i in 0..n {
        let j = (i + 1) % n;
        let k = if fwd { (i, j) } else { (j, i) };
        if sides.get(&k) != Some(&1) {
            return Err(format!("side: polygon side {i} used {} times", sides.get(&k).unwrap_or(&0)));
        }
        if sides.contains_key(&(k.1, k.0)) {
            return Err(format!("side: polygon side {i} used backwards"));
        }
    }
    for (k, c) in &sides {
        let side = (k.0 + 1) % n == k.1 || (k.1 + 1) % n == k.0;
        if *c != 1 || (!side && sides.get(&(k.1, k.0)) != Some(&1)) {
            return Err(format!("diagonal: {k:?} used {c} times"));
        }
    }
    Ok(())
}

fn dist(a: P2, b: P2) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt()
}

/// Total length of the diagonals the triangles use (vertex ids as in `check_triangulation`).
pub fn diagonal_weight(g: &FaceGeo, tris: &[[usize; 3]]) -> f64 {
    let n = g.verts.len();
    let idx: BTreeMap<usize, usize> = g.verts.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut w = 0.0;
    for t in tris {
        for k in 0..3 {
            let (a, b) = (idx[&t[k]], idx[&t[(k + 1) % 3]]);
            if (a + 1) % n != b && (b + 1) % n != a {
                w += dist(g.p[a], g.p[b]) / 2.0;
            }
        }
    }
    w
}

/// The least total diagonal length of any triangulation of the polygon (general position).
pub fn min_diagonal_weight(g: &FaceGeo) -> f64 {
    let n = g.p.len();
    let p = &g.p;
    let valid = |i: usize, j: usize| -> bool {
        if (i + 1) % n == j || (j + 1) % n == i {
            return true;
        }
        for k in 0..n {
            if segs_cross(p[i], p[j], p[k], p[(k + 1) % n]) {
                return false;
            }
        }
        // inside: the midpoint has an odd number of sides to its right
        let m = [(p[i][0] + p[j][0]) / 2.0, (p[i][1] + p[j][1]) / 2.0];
        let mut odd = false;
        for k in 0..n {
            let (a, b) = (p[k], p[(k + 1) % n]);
            if (a[1] > m[1]) != (b[1] > m[1]) && m[0] < (b[0] - a[0]) * (m[1] - a[1]) / (b[1] - a[1]) + a[0] {
                odd = !odd;
            }
        }
        odd
    };
    let mut ok = vec![vec![false; n]; n];
    for i in 0..n {
        for j in i + 1..n {
            ok[i][j] = valid(i, j);
        }
    }
    let len = |i: usize, j: usize| if i + 1 == j || (i == 0 && j == n - 1) { 0.0 } else { dist(p[i], p[j]) };
    let mut m = vec![vec![f64::INFINITY; n]; n];
    for i in 0..n - 1 {
        m[i][i + 1] = 0.0;
    }
    for l in 2..n {
        for i in 0..n - l {
            let j = i + l;
            if !ok[i][j] {
                continue;
            }
            for k in i + 1..j {
                if ok[i][k] && ok[k][j] {
                    m[i][j] = m[i][j].min(m[i][k] + m[k][j] + len(i, k) + len(k, j));
                }
            }
        }
    }
    m[0][n - 1]
}

/// Cuts the triangulation along all diagonals at `cuts`; whether some piece has longer diagonals than necessary.
pub fn not_light(g: &FaceGeo, tris: &[[usize; 3]], cuts: &[usize]) -> Option<String> {
    let mut across: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, t) in tris.iter().enumerate() {
        for k in 0..3 {
            across.insert((t[k], t[(k + 1) % 3]), i);
        }
    }
    let cut = |a: usize, b: usize| cuts.contains(&a) || cuts.contains(&b);
    let mut seen = vec![false; tris.len()];
    for s in 0..tris.len() {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let (mut todo, mut piece) = (vec![s], vec![]);
        let mut next: BTreeMap<usize, usize> = BTreeMap::new();
        while let Some(i) = todo.pop() {
            piece.push(tris[i]);
            for k in 0..3 {
                let (a, b) = (tris[i][k], tris[i][(k + 1) % 3]);
                match across.get(&(b, a)) {
                    Some(j) if !cut(a, b) => {
                        if !seen[*j] {
                            seen[*j] = true;
                            todo.push(*j);
                        }
                    }
                    _ => {
                        next.insert(a, b);
                    }
                }
            }
        }
        let n = piece.len() + 2;
        let mut verts = vec![*next.keys().next()?];
        while verts.len() < n {
            verts.push(*next.get(verts.last()?)?);
        }
        let p: Vec<P2> = verts.iter().map(|v| g.p[g.verts.iter().position(|x| x == v).unwrap()]).collect();
        let sub = FaceGeo { verts, p, normal: g.normal, planar: g.planar, shape: g.shape.clone() };
        let (is, want) = (diagonal_weight(&sub, &piece), min_diagonal_weight(&sub));
        if is > want + 1e-6 * g.shape.diam {
            return Some(format!("diagonals of {is} instead of {want} in {:?}", sub.verts));
        }
    }
    None
}

/// Whether some diagonal away from `cuts` has the corner across it clearly inside the circumcircle.
pub fn not_delaunay(g: &FaceGeo, tris: &[[usize; 3]], cuts: &[usize]) -> Option<String> {
    let idx: BTreeMap<usize, usize> = g.verts.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut apex: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for t in tris {
        for k in 0..3 {
            apex.insert((idx[&t[k]], idx[&t[(k + 1) % 3]]), idx[&t[(k + 2) % 3]]);
        }
    }
    for ((a, b), c) in &apex {
        if let Some(d) = apex.get(&(*b, *a)) {
            if cuts.contains(&g.verts[*a]) || cuts.contains(&g.verts[*b]) {
                continue;
            }
            // the opposite angles of the two triangles sum to at most 180 degrees
            let ang = |o: usize| {
                let (u, v) = (
                    [g.p[*a][0] - g.p[o][0], g.p[*a][1] - g.p[o][1]],
                    [g.p[*b][0] - g.p[o][0], g.p[*b][1] - g.p[o][1]],
                );
                (u[0] * v[1] - u[1] * v[0]).abs().atan2(u[0] * v[0] + u[1] * v[1])
            };
            if ang(*c) + ang(*d) > std::f64::consts::PI + 1e-6 {
                return Some(format!("diagonal {}-{} should be flipped", g.verts[*a], g.verts[*b]));
            }
        }
    }
    None
}
