//! Choosing sizes, strides and places, and putting images into memory.
use crate::exec::Side;
use crate::mem::{Arena, Place};
use crate::model::{needs, packed, total_rows, Conv, Desc, View};
use crate::rng::Rng;

/// Strides of one side as passed to the call, and as they are meant
#[derive(Clone, Debug)]
pub struct Strides {
    pub given: Option<Vec<usize>>,
    pub actual: Vec<usize>,
}

pub fn default_strides(d: &Desc, w: usize) -> Strides {
    Strides { given: None, actual: d.planes.iter().map(|p| packed(p, w as u64) as usize).collect() }
}

fn one_stride(rng: &mut Rng, row: usize) -> usize {
    match rng.below(12) {
        0 => row,
        1 => row + 1,
        2 => row + 2,
        3 => row + 3,
        4 => row + 1 + rng.below(8),
        5 => row + 1 + rng.below(80),
        6 => row.div_ceil(4) * 4,
        7 => row.div_ceil(16) * 16,
        8 => row.div_ceil(32) * 32,
        9 => row.div_ceil(64) * 64 + 64,
        10 => row + 16 + rng.below(3),
        _ => row * 2,
    }
}

/// Any strides at least a row long; with `overlap`, sometimes shorter ones
pub fn random_strides(rng: &mut Rng, d: &Desc, w: usize, overlap: bool) -> Strides {
    if rng.one_in(5) {
        return default_strides(d, w);
    }
    let mut given = vec![];
    let mut actual = vec![];
    for p in &d.planes {
        let row = packed(p, w as u64) as usize;
        if rng.one_in(5) {
            given.push(0);
            actual.push(row);
        } else if overlap && p.len() == 1 && row > 1 && rng.one_in(6) {
            let s = 1 + rng.below(row - 1);
            given.push(s);
            actual.push(s);
        } else {
            let s = one_stride(rng, row);
            given.push(s);
            actual.push(s);
        }
    }
    // more strides than planes: the rest has no meaning
    if rng.one_in(6) {
        for _ in 0..1 + rng.below(3) {
            given.push(*rng.pick(&[0, 1, 7, w, usize::MAX, usize::MAX / 2]));
        }
    }
    Strides { given: Some(given), actual }
}

/// Strides of both sides; sometimes of a regularity that programs have and chance
/// does not: the same everywhere, luma's twice that of chroma, whole pages
pub fn both_strides(rng: &mut Rng, c: &Conv, w: usize, overlap: bool) -> (Strides, Strides) {
    let row = |p: &Vec<crate::model::Area>| packed(p, w as u64) as usize;
    let most = c.src.planes.iter().chain(&c.dst.planes).map(row).max().unwrap();
    let side = |d: &Desc, f: &dyn Fn(usize, usize) -> usize| {
        let v: Vec<usize> = d.planes.iter().enumerate().map(|(k, p)| f(k, row(p))).collect();
        Strides { given: Some(v.clone()), actual: v }
    };
    match rng.below(16) {
        0 => {
            let m = most.next_multiple_of(*rng.pick(&[1, 2, 4, 16, 32, 64]));
            (side(&c.src, &|_, _| m), side(&c.dst, &|_, _| m))
        }
        1 => {
            let y = w.next_multiple_of(*rng.pick(&[2, 4, 16, 32, 64]));
            let f = |d: &Desc| side(d, &|k, r| {
                let v = if d.planes.len() == 3 && k > 0 && d.planes[k][0].sx > 0 { y / 2 } else { y };
                if d.planes.len() == 1 && v < r { r.next_multiple_of(64) } else { v.max(r) }
            });
            (f(&c.src), f(&c.dst))
        }
        2 => {
            let pages = |_: usize, r: usize| r.next_multiple_of(4096);
            (side(&c.src, &pages), side(&c.dst, &pages))
        }
        3 => {
            // the same number of bytes more
            let m = *rng.pick(&[1, 4, 12, 16, 32, 64]);
            (side(&c.src, &|_, r| r + m), side(&c.dst, &|_, r| r + m))
        }
        _ => (random_strides(rng, &c.src, w, overlap), random_strides(rng, &c.dst, w, false)),
    }
}

/// More buffers than planes: the others have no meaning
pub fn surplus(rng: &mut Rng, pool: &Pool, side: &mut Side) {
    let n = side.bufs.len();
    for k in n..(n + 1 + rng.below(5)).min(6) {
        let l = *rng.pick(&[0, 1, 64, 5000]);
        // (the fourth arena is where planes are gathered)
        side.bufs.push((pool.arenas[if k < 3 { k } else { k + 1 }].place(l, Place::Mid(1024)), l));
    }
}

pub fn lens(d: &Desc, w: usize, h: usize, s: &Strides) -> Vec<usize> {
    d.planes.iter().zip(&s.actual).map(|(p, &s)| needs(p, w as u64, h as u64, s as u64) as usize).collect()
}

/// Full rows, as the size query counts them
#[allow(dead_code)]
pub fn full_lens(d: &Desc, h: usize, s: &Strides) -> Vec<usize> {
    d.planes.iter().zip(&s.actual).map(|(p, &s)| s * total_rows(p, h as u64) as usize).collect()
}

/// Memory for the planes of one side
pub struct Pool {
    pub arenas: Vec<Arena>,
}

impl Pool {
    pub fn new(size: usize) -> Pool {
        Pool { arenas: (0..7).map(|k| Arena::new(if k < 4 { size } else { size.min(1 << 16) })).collect() }
    }
    /// Where a buffer is
    pub fn arena(&self, p: *const u8) -> &Arena {
        self.arenas.iter().find(|a| p as usize >= a.data as usize && p as usize <= a.data as usize + a.size).unwrap()
    }
    pub fn side(&self, d: &Desc, s: &Strides, lens: &[usize], places: &[Place]) -> Side {
        Side {
            pf: d.pf,
            cs: d.cs,
            np: d.np,
            strides: s.given.clone(),
            bufs: lens.iter().enumerate().map(|(i, &l)| (self.arenas[i].place(l, places[i]), l)).collect(),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Who {
    Src,
    Dst,
    Both,
}

pub fn anyone(rng: &mut Rng) -> Who {
    *rng.pick(&[Who::Src, Who::Dst, Who::Both])
}

/// Puts planes where programs that allocate once per image have them: one after
/// another, in this or another order, with or without gaps, the destination's
/// right after the source's; with `alias`, planes of the source may share memory.
/// (No other side uses the last arena.)
pub fn gather(rng: &mut Rng, pool: &Pool, s: &mut Side, d: &mut Side, which: Who, alias: bool) {
    let total: usize = s.bufs.iter().chain(&d.bufs).map(|b| b.1 + 256).sum();
    if total + 1024 > pool.arenas[3].size {
        return;
    }
    let gap = *rng.pick(&[0, 0, 0, 1, 16, 64]);
    let round = *rng.pick(&[1, 1, 1, 2, 16, 32, 64]);
    let mut at = match random_mid(rng) { Place::Mid(k) => k, _ => 512 };
    for (k, side) in [s, d].into_iter().enumerate() {
        if which == if k == 0 { Who::Dst } else { Who::Src } {
            continue;
        }
        let n = side.bufs.len();
        let mut order: Vec<usize> = (0..n).collect();
        if n > 1 && rng.one_in(3) {
            let (i, j) = (rng.below(n), rng.below(n));
            order.swap(i, j);
        }
        if k == 0 && alias && n > 1 && rng.one_in(3) {
            // from the same place, or one in the other
            let longest = side.bufs.iter().map(|b| b.1).max().unwrap();
            for b in &mut side.bufs {
                let o = if rng.one_in(2) { 0 } else { rng.below(longest - b.1 + 1) };
                b.0 = pool.arenas[3].place(b.1, Place::Mid(at + o));
            }
            at += longest + gap;
            continue;
        }
        for i in order {
            let l = side.bufs[i].1;
            side.bufs[i].0 = pool.arenas[3].place(l, Place::Mid(at));
            at = (at + l + gap).next_multiple_of(round);
        }
    }
}

pub fn views(side: &Side, s: &Strides) -> Vec<View<'static>> {
    s.actual.iter().zip(&side.bufs).map(|(&stride, b)| View {
        bytes: unsafe { std::slice::from_raw_parts(b.0, b.1) },
        stride,
    }).collect()
}

pub fn slice(b: (*mut u8, usize)) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(b.0, b.1) }
}

pub fn random_mid(rng: &mut Rng) -> Place {
    if rng.one_in(8) {
        return Place::Mid(4096);
    }
    Place::Mid(512 + if rng.one_in(3) { 16 * rng.below(7) } else { rng.below(96) })
}

/// A width the conversion takes: every width from 1 up comes at its turn
pub fn widths(c: &Conv, max: usize) -> Vec<usize> {
    let step = if c.even_w { 2 } else { 1 };
    let mut v: Vec<usize> = (step..=max).step_by(step).collect();
    for w in [95, 96, 97, 98, 126, 127, 128, 129, 130, 191, 192, 193, 194, 254, 255, 256, 257, 258, 510, 511, 512, 513, 514, 1022, 1026] {
        if w > max && w % step == 0 {
            v.push(w);
        }
    }
    v
}

pub fn height(rng: &mut Rng, c: &Conv) -> usize {
    if c.even_h {
        *rng.pick(&[2, 2, 4, 6, 8])
    } else {
        *rng.pick(&[1, 2, 3, 4, 5, 7])
    }
}

/// Contents that random bytes would not reach
pub fn fill(rng: &mut Rng, b: &mut [u8]) {
    match rng.below(9) {
        8 => {
            let (mut v, mut left) = (0, 0);
            for x in b.iter_mut() {
                if left == 0 {
                    v = rng.next() as u8;
                    left = 1 + rng.below(70);
                }
                left -= 1;
                *x = v;
            }
        }
        0 => {
            for x in b.iter_mut() {
                *x = if rng.one_in(2) { 0 } else { 255 };
            }
        }
        1 => {
            for x in b.iter_mut() {
                *x = *rng.pick(&[0, 1, 15, 16, 17, 127, 128, 129, 234, 235, 236, 239, 240, 241, 254, 255]);
            }
        }
        2 => {
            let k = rng.next() as u8;
            for (i, x) in b.iter_mut().enumerate() {
                *x = (i as u8).wrapping_add(k);
            }
        }
        _ => rng.fill(b),
    }
}

/// Pixels as pictures have them: areas in which some or all channels do not change,
/// greys, edges. (The rest of the buffers is left alone.)
pub fn paint(rng: &mut Rng, d: &Desc, strides: &[usize], bufs: &[(*mut u8, usize)], w: usize, h: usize) {
    const SOME: [u8; 16] = [0, 255, 128, 16, 235, 240, 127, 129, 1, 254, 15, 17, 64, 100, 192, 239];
    let special = rng.below(4);
    let value = |r: &mut Rng| if r.below(4) < special { SOME[r.below(16)] } else { r.next() as u8 };
    // areas that all channels share
    let (tw, th) = (*rng.pick(&[1, 2, 4, 8, 16, 32, 64, 1 << 20]), *rng.pick(&[1, 2, 2, 4, 1 << 20]));
    let (ox, oy) = if rng.one_in(3) { (rng.below(tw.min(64)), rng.below(th.min(4))) } else { (0, 0) };
    let grey = rng.one_in(6);
    let key = rng.next();
    let mut nth = 0_u64;
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            for off in 0..a.chan.len() {
                nth += 1;
                let how = rng.below(8);
                let whole = value(rng);
                let other = value(rng);
                for j in 0..h >> a.sy {
                    for i in 0..w >> a.sx {
                        let (x, y) = (((i << a.sx) + ox) / tw, ((j << a.sy) + oy) / th);
                        let mut r = Rng::new(key ^ ((x as u64) << 20) ^ y as u64 ^ if grey { 0 } else { nth << 44 });
                        let v = match how {
                            0 | 1 => whole,
                            2 => if r.one_in(2) { whole } else { other },
                            3 => (i as u8).wrapping_add(j as u8).wrapping_add(whole),
                            4 if tw > 8 && !grey => rng.next() as u8,
                            _ => value(&mut r),
                        };
                        let o = (row0 + j) * strides[p] + off + i * a.chan.len();
                        if o < bufs[p].1 {
                            unsafe { bufs[p].0.add(o).write(v) };
                        }
                    }
                }
            }
            row0 += h >> a.sy;
        }
    }
}

/// Fills the buffers of a source with anything, or with a picture
pub fn contents(rng: &mut Rng, d: &Desc, s: &Strides, bufs: &[(*mut u8, usize)], w: usize, h: usize) {
    for b in bufs {
        fill(rng, slice(*b));
    }
    if rng.one_in(2) {
        paint(rng, d, &s.actual, bufs, w, h);
    }
}
