//! Every sample of every conversion is the one the specification computes:
//! all positions (by size, layout and instruction set) and all values.
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{channels, Conv, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

/// The channels (numbered as by footprint, from 1) a property talks about
pub fn judged(prop: &str, c: &Conv) -> Vec<u8> {
    let names = channels(&c.dst);
    let mut v = vec![];
    for (i, n) in names.iter().enumerate() {
        let area = c.dst.planes.iter().flatten().find(|a| a.chan.contains(n)).unwrap();
        let sub = area.sx > 0 || area.sy > 0;
        let yes = match prop {
            "C04" => c.group == "rgb2yuv" && !sub,
            "C05" => c.group == "rgb2yuv" && sub,
            "C06" => c.group == "yuv2rgb",
            "C07" => c.group == "rgb2rgb",
            _ => true,
        };
        if yes {
            v.push(i as u8 + 1);
        }
    }
    v
}

struct Judge<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
    want: Vec<Vec<u8>>,
    mark: Vec<Vec<u8>>,
}

impl Judge<'_> {
    /// Runs the case on every instruction set and compares the judged channels
    #[allow(clippy::too_many_arguments)]
    fn case(&mut self, c: &Conv, chans: &[u8], isas: &[Isa], w: usize, h: usize, ss: &Strides, ds: &Strides,
            s: &Side, d: &Side, phase: &str) {
        let dl = lens(&c.dst, w, h, ds);
        for (i, &l) in dl.iter().enumerate() {
            self.want[i].clear();
            self.want[i].resize(l, 0);
            self.mark[i].clear();
            self.mark[i].resize(l, 0);
        }
        let mut out: Vec<(&mut [u8], usize)> =
            self.want.iter_mut().zip(&ds.actual).map(|(b, &s)| (&mut b[..], s)).collect();
        c.expect(self.spec, w, h, &views(s, ss), &mut out);
        let mut out: Vec<(&mut [u8], usize)> =
            self.mark.iter_mut().zip(&ds.actual).map(|(b, &s)| (&mut b[..], s)).collect();
        c.footprint(w, h, &mut out);
        for &isa in isas {
            isa.select();
            // no stale result of the instruction set before
            for b in &d.bufs {
                slice(*b).fill(0xa5);
            }
            current(format_args!(
                "{{\"conv\":\"{}\",\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
                self.spec.name(c), isa.name(), s.json(), d.json()));
            let r = convert(w as u32, h as u32, s, d);
            self.rep.evaluations += 1;
            if r != Out::Ok {
                self.rep.violation("a valid conversion was not performed", json!({"outcome": r.name()}));
                continue;
            }
            'planes: for p in 0..dl.len() {
                let got = slice(d.bufs[p]);
                if got == &self.want[p][..] {
                    continue;
                }
                for o in 0..got.len() {
                    if got[o] != self.want[p][o] && chans.contains(&self.mark[p][o]) {
                        let ch = channels(&c.dst)[self.mark[p][o] as usize - 1].clone();
                        self.rep.violation("a sample differs from the specification", json!({
                            "plane": p, "offset": o, "row": o / ds.actual[p], "byte_in_row": o % ds.actual[p],
                            "channel": ch, "got": got[o], "expected": self.want[p][o]}));
                        break 'planes;
                    }
                }
            }
        }
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let prop = a.get("prop").to_string();
    let isas = isas();
    let big = 1 << 22;
    let mut j = Judge {
        spec: &spec, rep: Report::new(), src: Pool::new(big), dst: Pool::new(big),
        want: vec![vec![]; 4], mark: vec![vec![]; 4],
    };
    let reps = if a.thorough { 150 } else { 12 };
    let mut unit = 0;
    for c in &spec.convs {
        let chans = judged(&prop, c);
        if chans.is_empty() {
            continue;
        }
        // all positions
        for w in widths(c, if a.thorough { 200 } else { 84 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ ((c.id as u64) << 32) ^ w as u64);
            for _ in 0..if w > 260 { 2 } else { reps } {
                let h = height(&mut rng, c);
                let (ss, ds) = both_strides(&mut rng, c, w, true);
                let mut pl = [Place::Start; 8];
                for p in &mut pl {
                    *p = random_mid(&mut rng);
                }
                let mut s = j.src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl[..4]);
                let mut d = j.dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl[4..]);
                let together = rng.one_in(4);
                if together {
                    let who = anyone(&mut rng);
                gather(&mut rng, &j.src, &mut s, &mut d, who, true);
                }
                contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
                if rng.one_in(8) {
                    surplus(&mut rng, &j.src, &mut s);
                    surplus(&mut rng, &j.dst, &mut d);
                }
                j.case(c, &chans, &isas, w, h, &ss, &ds, &s, &d, if together { "positions, planes together" } else { "positions" });
                j.rep.nontrivial += 1;
            }
        }
        // pictures
        for k in 0..if a.thorough { 800 } else { 64 } {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x91c ^ ((c.id as u64) << 32) ^ ((k as u64) << 16));
            let w = *rng.pick(&[32, 64, 128, 256, 258, 300]);
            let h = *rng.pick(&[2, 16, 64]);
            let (ss, ds) = both_strides(&mut rng, c, w, false);
            let mut pl = [Place::Start; 8];
            for p in &mut pl {
                *p = random_mid(&mut rng);
            }
            let mut s = j.src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl[..4]);
            let mut d = j.dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl[4..]);
            if rng.one_in(4) {
                let who = anyone(&mut rng);
                gather(&mut rng, &j.src, &mut s, &mut d, who, true);
            }
            paint(&mut rng, &c.src, &ss.actual, &s.bufs, w, h);
            j.case(c, &chans, &isas, w, h, &ss, &ds, &s, &d, "pictures");
            j.rep.nontrivial += 1;
        }
        // all values
        values(&mut j, c, &chans, &isas, a, &mut unit);
    }
    j.rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap());
    j.rep.finish();
}

/// Puts the bytes `f(x, y)` of channel `name` into the source image
pub fn put(d: &crate::model::Desc, bufs: &[(*mut u8, usize)], strides: &[usize], w: usize, h: usize, name: &str,
       mut f: impl FnMut(usize, usize) -> u8) {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for ar in plane {
            if let Some(off) = ar.chan.iter().position(|c| c == name) {
                let b = slice(bufs[p]);
                for y in 0..h >> ar.sy {
                    let o = (row0 + y) * strides[p] + off;
                    for x in 0..w >> ar.sx {
                        b[o + x * ar.chan.len()] = f(x, y);
                    }
                }
            }
            row0 += ar.rows(h as u64) as usize;
        }
    }
}

pub const ALL: usize = 1 << 24;
/// Width and height of the images that values are put into
pub const SHAPE: (usize, usize) = (1030, 256);

/// The values a source can have, in an order in which any of them meets any
/// lane over time
pub struct Order {
    mul: usize,
    add: usize,
}

/// What is put into a source
#[derive(Clone, Copy, PartialEq)]
pub enum Fill {
    /// every color or triple (of 4:2:0: 22 bits of it)
    Every,
    /// every color, in 2x2 blocks of the same
    Constant,
    /// 2x2 blocks of different colors
    Mixed,
}

fn hash(x: u64) -> u64 {
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

impl Order {
    pub fn new(seed: u64, c: &Conv) -> Order {
        let mut r = Rng::new(seed.wrapping_mul(77) ^ c.id as u64);
        Order { mul: (r.next() as usize) | 1, add: r.next() as usize }
    }
    fn at(&self, t: usize) -> usize {
        t.wrapping_mul(self.mul).wrapping_add(self.add) & (ALL - 1)
    }

    /// Puts part `i` of them into an image
    pub fn put(&self, c: &Conv, bufs: &[(*mut u8, usize)], strides: &[usize], kind: Fill, i: usize) {
        let (w, h) = SHAPE;
        let per = w * h;
        if c.inputs.len() < 3 {
            return;
        }
        let sub_src = c.src.planes.iter().flatten().any(|x| x.sx > 0);
        let ins: Vec<&str> = c.inputs.iter().map(|s| s.as_str()).collect();
        for (k, name) in ins.iter().enumerate() {
            if kind == Fill::Constant {
                put(&c.src, bufs, strides, w, h, name, |x, y| {
                    let t = self.at((i * per / 4 + (y / 2) * (w / 2) + x / 2) & (ALL - 1));
                    (t >> (8 * k)) as u8
                });
            } else if kind == Fill::Mixed {
                // anything, much the same, or as different as can be
                put(&c.src, bufs, strides, w, h, name, |x, y| {
                    let block = hash(self.add as u64 ^ ((i as u64) << 40) ^ ((y / 2 * w + x / 2) as u64));
                    let own = hash(block ^ ((k as u64) << 8) ^ ((y % 2 * 2 + x % 2) as u64)) as usize;
                    let base = (block >> (8 + 8 * k)) as u8;
                    match block & 7 {
                        0 | 1 => own as u8,
                        2 => [0, 0, 1, 2, 127, 128, 253, 254, 255, 255][own % 10],
                        3 => [base, base.saturating_add(1)][own % 2],
                        _ => (i32::from(base) + (own % 7) as i32 - 3).clamp(0, 255) as u8,
                    }
                });
            } else if sub_src {
                // blocks of two shared samples and four of their own: 22 bits
                // number the block, of which 16 are the shared samples
                let own = c.src.planes.iter().flatten().any(|ar| ar.chan.contains(&ins[k].to_string()) && ar.sx == 0);
                let nth = ins[..k].iter().filter(|n| c.src.planes.iter().flatten()
                    .any(|ar| ar.sx > 0 && ar.chan.contains(&n.to_string()))).count();
                put(&c.src, bufs, strides, w, h, name, |x, y| {
                    let (bx, by) = if own { (x / 2, y / 2) } else { (x, y) };
                    let t = self.at((i * per / 4 + by * (w / 2) + bx) & ((1 << 22) - 1)) & ((1 << 22) - 1);
                    if own {
                        let sub = ((y % 2) * 2 + x % 2 + (t >> 5)) & 3;
                        ((t >> 16) | (sub << 6)) as u8
                    } else {
                        (t >> (8 * nth)) as u8
                    }
                });
            } else {
                put(&c.src, bufs, strides, w, h, name, |x, y| (self.at((i * per + y * w + x) & (ALL - 1)) >> (8 * k)) as u8);
            }
        }
    }
}

fn values(j: &mut Judge, c: &Conv, chans: &[u8], isas: &[Isa], a: &Args, unit: &mut usize) {
    let sub_dst = c.dst.planes.iter().flatten().any(|x| x.sx > 0);
    let blocks = sub_dst && a.get("prop") == "C05";
    let (w, h) = SHAPE;
    let per = w * h;
    let order = Order::new(a.seed, c);
    let mut jobs: Vec<(Fill, usize)> = vec![];
    if blocks {
        let nb = per / 4;
        let n = if a.thorough { ALL.div_ceil(nb) } else { (1usize << 22).div_ceil(nb) };
        jobs.extend((0..n).map(|i| (Fill::Constant, i)));
        let n = if a.thorough { 4 * ALL.div_ceil(nb) } else { (1usize << 21).div_ceil(nb) };
        jobs.extend((0..n).map(|i| (Fill::Mixed, i)));
    } else {
        jobs.extend((0..ALL.div_ceil(per)).map(|i| (Fill::Every, i)));
    }
    for (kind, i) in jobs {
        *unit += 1;
        if *unit % a.shards != a.shard {
            continue;
        }
        let mut rng = Rng::new(a.seed ^ ((c.id as u64) << 40) ^ ((kind as u64) << 32) ^ i as u64);
        let (ss, ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
        let sl = lens(&c.src, w, h, &ss);
        let pl = [Place::Mid(64); 8];
        let s = j.src.side(&c.src, &ss, &sl, &pl[..4]);
        for b in &s.bufs {
            rng.fill(slice(*b));
        }
        order.put(c, &s.bufs, &ss.actual, kind, i);
        let d = j.dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl[4..]);
        j.case(c, chans, isas, w, h, &ss, &ds, &s, &d, "values");
        j.rep.count("values", per as u64 * isas.len() as u64);
    }
}
