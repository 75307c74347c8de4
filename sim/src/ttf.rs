//! Fonts for the text oracle: random TrueType files built in memory, and the one that ships with
//! the crate (read with the font parser the crate uses).

use crate::props::outline::Sub;
use crate::rng::Rng;
use crate::types::*;
use ab_glyph::Font as _;
use std::collections::BTreeMap;

struct Glyph {
    adv: u16,
    contours: Vec<Vec<(i16, i16, bool)>>,
}

pub struct Font {
    pub data: Vec<u8>,
    glyphs: Vec<Glyph>,
    kern: BTreeMap<(usize, usize), i16>,
    upem: u16,
    synthetic: bool,
}

fn w16(o: &mut Vec<u8>, x: u16) {
    o.extend(x.to_be_bytes());
}
fn w32(o: &mut Vec<u8>, x: u32) {
    o.extend(x.to_be_bytes());
}

impl Font {
    pub fn file() -> Option<Font> {
        let data = std::fs::read("/repo/assets/Cochineal-Roman.otf").ok()?;
        Some(Font { data, glyphs: vec![], kern: BTreeMap::new(), upem: 0, synthetic: false })
    }

    /// Glyph 0 is empty; glyph k is the character 'a' + k - 1; one glyph may be blank.
    pub fn random(r: &mut Rng) -> Font {
        let upem = *r.pick(&[1000u16, 1024, 2048, 64]);
        let n = 2 + r.below(5);
        let mut glyphs = vec![Glyph { adv: upem / 2, contours: vec![] }];
        for _ in 0..n {
            let mut contours = vec![];
            for _ in 0..[1, 1, 2, 3, 0][r.below(5)] {
                let k = 3 + r.below(6);
                let u = upem as i64;
                contours.push((0..k).map(|_| (r.range(0, u) as i16, r.range(-u / 4, u) as i16, r.chance(2, 3))).collect());
            }
            glyphs.push(Glyph { adv: r.below(upem as usize * 2) as u16, contours });
        }
        let mut kern = BTreeMap::new();
        for _ in 0..r.below(6) {
            kern.insert((1 + r.below(n), 1 + r.below(n)), r.range(-(upem as i64) / 4, upem as i64 / 4) as i16);
        }
        let asc = (upem as i64 * (50 + r.below(80) as i64) / 100) as i16;
        let desc = -((upem as i64 * r.below(50) as i64 / 100) as i16);
        let data = build(&glyphs, &kern, upem, asc, desc);
        Font { data, glyphs, kern, upem, synthetic: true }
    }

    pub fn any_char(&self, r: &mut Rng) -> char {
        if self.synthetic {
            // one past the last has no glyph
            (b'a' + r.below(self.glyphs.len()) as u8) as char
        } else {
            *r.pick(&['a', 'e', 'g', 'i', 'B', '8', 'Q', ' ', 'x', 'S', '&', 'W', 'A', 'V', ';', 'ß', '@'])
        }
    }

    /// The contours laying out `text` must draw, and the tolerance for rounding.
    pub fn expected(&self, text: &str, scale: f32) -> Option<(Vec<Sub>, f64)> {
        let mut subs = vec![];
        let mut pen = 0.0f64;
        if !self.synthetic {
            let f = ab_glyph::FontRef::try_from_slice(&self.data).ok()?;
            let k = scale as f64 * 96.0 / 72.0 / f.units_per_em()? as f64;
            let mut last = None;
            for c in text.chars() {
                let g = f.glyph_id(c);
                if let Some(l) = last {
                    pen += f.kern_unscaled(l, g) as f64 * k;
                }
                if let Some(o) = f.outline(g) {
                    let mut cur: Option<Sub> = None;
                    let pt = |p: ab_glyph::Point| V3::new(p.x as f64 * k + pen, p.y as f64 * k, 0.0);
                    let mut first = ab_glyph::Point { x: 0.0, y: 0.0 };
                    for c in &o.curves {
                        use ab_glyph::OutlineCurve::*;
                        let (a, b, cv) = match c {
                            Line(a, b) => (*a, *b, Curve::Lin),
                            Quad(a, q, b) => (*a, *b, Curve::Quad(pt(*q))),
                            Cubic(a, q, s, b) => (*a, *b, Curve::Cubic(pt(*q), pt(*s))),
                        };
                        if a == b && cv == Curve::Lin {
                            continue;
                        }
                        let s = cur.get_or_insert_with(|| {
                            first = a;
                            Sub { pts: vec![], segs: vec![] }
                        });
                        s.pts.push(pt(a));
                        s.segs.push(cv);
                        if b == first {
                            subs.push(cur.take().unwrap());
                        }
                    }
                    if cur.is_some() {
                        return None;
                    }
                }
                pen += f.h_advance_unscaled(g) as f64 * k;
                last = Some(g);
            }
            return Some((subs, 1e-4 * (scale as f64 + pen.abs())));
        }
        let k = scale as f64 * 96.0 / 72.0 / self.upem as f64;
        let mut last = None;
        for c in text.chars() {
            let g = (c as usize).wrapping_sub('a' as usize).wrapping_add(1);
            let g = if g < self.glyphs.len() { g } else { 0 };
            if let Some(l) = last {
                pen += *self.kern.get(&(l, g)).unwrap_or(&0) as f64 * k;
            }
            // the font parser treats a glyph whose points are all level as one without outlines
            let all = || self.glyphs[g].contours.iter().flatten();
            if all().next().is_some() && (all().all(|p| p.0 == all().next().unwrap().0) || all().all(|p| p.1 == all().next().unwrap().1)) {
                return None;
            }
            for c in &self.glyphs[g].contours {
                subs.push(decode(c, k, pen)?);
            }
            pen += self.glyphs[g].adv as f64 * k;
            last = Some(g);
        }
        Some((subs, 1e-4 * (scale as f64 + pen.abs())))
    }
}

/// TrueType's quadratic contour: two off-curve points have an on-curve point between them.
fn decode(c: &[(i16, i16, bool)], k: f64, pen: f64) -> Option<Sub> {
    let n = c.len();
    let mut full: Vec<(f64, f64, bool)> = vec![];
    for i in 0..n {
        let (a, b) = (c[i], c[(i + 1) % n]);
        full.push((a.0 as f64, a.1 as f64, a.2));
        if !a.2 && !b.2 {
            full.push(((a.0 as f64 + b.0 as f64) / 2.0, (a.1 as f64 + b.1 as f64) / 2.0, true));
        }
    }
    let s = full.iter().position(|p| p.2)?;
    full.rotate_left(s);
    let pt = |p: &(f64, f64, bool)| V3::new(p.0 * k + pen, p.1 * k, 0.0);
    let mut sub = Sub { pts: vec![], segs: vec![] };
    let m = full.len();
    let mut i = 0;
    while i < m {
        sub.pts.push(pt(&full[i]));
        let nx = &full[(i + 1) % m];
        if nx.2 {
            sub.segs.push(Curve::Lin);
            i += 1;
        } else {
            sub.segs.push(Curve::Quad(pt(nx)));
            i += 2;
        }
    }
    // points that coincide with their successor draw nothing
    let j = sub.pts.len();
    if j < 3 {
        return None;
    }
    Some(sub)
}

fn build(gs: &[Glyph], kern: &BTreeMap<(usize, usize), i16>, upem: u16, asc: i16, desc: i16) -> Vec<u8> {
    let mut head = vec![];
    w32(&mut head, 0x10000);
    w32(&mut head, 0x10000);
    w32(&mut head, 0);
    w32(&mut head, 0x5F0F3CF5);
    w16(&mut head, 0);
    w16(&mut head, upem);
    head.extend([0; 16]);
    for x in [0i16, -(upem as i16 / 4), upem as i16, upem as i16] {
        w16(&mut head, x as u16);
    }
    w16(&mut head, 0);
    w16(&mut head, 8);
    w16(&mut head, 2);
    w16(&mut head, 1); // long loca
    w16(&mut head, 0);
    let mut hhea = vec![];
    w32(&mut hhea, 0x10000);
    w16(&mut hhea, asc as u16);
    w16(&mut hhea, desc as u16);
    hhea.extend([0; 26]);
    w16(&mut hhea, gs.len() as u16);
    let mut maxp = vec![];
    w32(&mut maxp, 0x10000);
    w16(&mut maxp, gs.len() as u16);
    maxp.extend([0; 26]);
    let mut hmtx = vec![];
    for g in gs {
        w16(&mut hmtx, g.adv);
        w16(&mut hmtx, 0);
    }
    let mut cmap = vec![];
    w16(&mut cmap, 0);
    w16(&mut cmap, 1);
    w16(&mut cmap, 3);
    w16(&mut cmap, 10);
    w32(&mut cmap, 12);
    w16(&mut cmap, 12);
    w16(&mut cmap, 0);
    w32(&mut cmap, 28);
    w32(&mut cmap, 0);
    w32(&mut cmap, 1);
    w32(&mut cmap, 'a' as u32);
    w32(&mut cmap, 'a' as u32 + gs.len() as u32 - 2);
    w32(&mut cmap, 1);
    let mut glyf: Vec<u8> = vec![];
    let mut loca = vec![];
    for g in gs {
        w32(&mut loca, glyf.len() as u32);
        if g.contours.is_empty() {
            continue;
        }
        w16(&mut glyf, g.contours.len() as u16);
        let all: Vec<_> = g.contours.iter().flatten().collect();
        let (x0, x1) = (all.iter().map(|p| p.0).min().unwrap(), all.iter().map(|p| p.0).max().unwrap());
        let (y0, y1) = (all.iter().map(|p| p.1).min().unwrap(), all.iter().map(|p| p.1).max().unwrap());
        for x in [x0, y0, x1, y1] {
            w16(&mut glyf, x as u16);
        }
        let mut e = 0;
        for c in &g.contours {
            e += c.len();
            w16(&mut glyf, e as u16 - 1);
        }
        w16(&mut glyf, 0);
        for p in &all {
            glyf.push(p.2 as u8);
        }
        let mut o = 0;
        for p in &all {
            w16(&mut glyf, (p.0 - o) as u16);
            o = p.0;
        }
        o = 0;
        for p in &all {
            w16(&mut glyf, (p.1 - o) as u16);
            o = p.1;
        }
        while glyf.len() % 4 != 0 {
            glyf.push(0);
        }
    }
    w32(&mut loca, glyf.len() as u32);
    let mut kt = vec![];
    w16(&mut kt, 0);
    w16(&mut kt, 1);
    w16(&mut kt, 0);
    w16(&mut kt, 14 + 6 * kern.len() as u16);
    w16(&mut kt, 1);
    w16(&mut kt, kern.len() as u16);
    kt.extend([0; 6]);
    for ((a, b), x) in kern {
        w16(&mut kt, *a as u16);
        w16(&mut kt, *b as u16);
        w16(&mut kt, *x as u16);
    }
    let tables: [(&[u8; 4], Vec<u8>); 8] = [(b"cmap", cmap), (b"glyf", glyf), (b"head", head), (b"hhea", hhea), (b"hmtx", hmtx), (b"kern", kt), (b"loca", loca), (b"maxp", maxp)];
    let mut out = vec![];
    w32(&mut out, 0x10000);
    w16(&mut out, tables.len() as u16);
    out.extend([0; 6]);
    let mut off = 12 + 16 * tables.len();
    for (n, t) in &tables {
        out.extend_from_slice(*n);
        w32(&mut out, 0);
        w32(&mut out, off as u32);
        w32(&mut out, t.len() as u32);
        off += t.len().div_ceil(4) * 4;
    }
    for (_, t) in &tables {
        out.extend(t);
        while out.len() % 4 != 0 {
            out.push(0);
        }
    }
    out
}
