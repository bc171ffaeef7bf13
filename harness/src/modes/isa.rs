//! Every instruction set does the same: outcomes and all bytes of the
//! destination buffers and around them.
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{needs, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};

struct Cmp<'a> {
    spec: &'a Spec,
    rep: Report,
    isas: Vec<Isa>,
    dst: Pool,
    first: Vec<Vec<u8>>,
}

impl Cmp<'_> {
    fn case(&mut self, w: u32, h: u32, s: &Side, d: &Side, bytes: bool, phase: &str) -> Out {
        let mut first = Out::Ok;
        for (n, &isa) in self.isas.clone().iter().enumerate() {
            isa.select();
            let wins: Vec<&mut [u8]> = d.bufs.iter().map(|b| {
                let ar = self.dst.arena(b.0);
                let (lo, hi) = ar.around(b.0, b.1, 64);
                &mut ar.bytes()[lo..hi]
            }).collect();
            for win in wins {
                for (o, x) in win.iter_mut().enumerate() {
                    *x = (o as u8).wrapping_mul(89);
                }
            }
            current(format_args!(
                "{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
                isa.name(), s.json(), d.json()));
            let r = convert(w, h, s, d);
            self.rep.evaluations += 1;
            for (i, b) in d.bufs.iter().enumerate() {
                let ar = self.dst.arena(b.0);
                let (lo, hi) = ar.around(b.0, b.1, 64);
                let now = &ar.bytes()[lo..hi];
                if n == 0 {
                    self.first[i].clear();
                    self.first[i].extend_from_slice(now);
                } else if bytes && now != &self.first[i][..] {
                    let o = (0..now.len()).find(|&o| now[o] != self.first[i][o]).unwrap();
                    let off = b.0 as usize - ar.data as usize - lo;
                    self.rep.violation("two instruction sets disagree about a byte", json!({
                        "sets": [self.isas[0].name(), isa.name()], "buffer": i, "offset": o as i64 - off as i64,
                        "got": [self.first[i][o], now[o]]}));
                    return r;
                }
            }
            if n == 0 {
                first = r;
            } else if r != first {
                self.rep.violation("two instruction sets disagree about the outcome", json!({
                    "sets": [self.isas[0].name(), isa.name()], "outcomes": [first.name(), r.name()]}));
                return r;
            }
        }
        first
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let big = 1 << 22;
    let src = Pool::new(big);
    let mut m = Cmp { spec: &spec, rep: Report::new(), isas: isas(), dst: Pool::new(big), first: vec![vec![]; 8] };
    let reps = if a.thorough { 200 } else { 14 };
    let mut unit = 0;
    for c in &spec.convs {
        for w in widths(c, if a.thorough { 300 } else { 140 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x15a ^ ((c.id as u64) << 32) ^ w as u64);
            for _ in 0..if w > 260 { 3 } else { reps } {
                let h = height(&mut rng, c);
                let (ss, ds) = both_strides(&mut rng, c, w, true);
                let pick = |rng: &mut Rng| match rng.below(5) {
                    0 => Place::Start,
                    _ => random_mid(rng),
                };
                let pl: Vec<Place> = (0..4).map(|_| pick(&mut rng)).collect();
                let pd: Vec<Place> = (0..4).map(|_| pick(&mut rng)).collect();
                let mut s = src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl);
                let mut d = m.dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pd);
                contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
                m.case(w as u32, h as u32, &s, &d, true, "valid");
                m.rep.nontrivial += 1;
                if rng.one_in(4) {
                    let (mut s, mut d) = (s.clone(), d.clone());
                    gather(&mut rng, &src, &mut s, &mut d, Who::Src, true);
                    gather(&mut rng, &m.dst, &mut s, &mut d, Who::Dst, false);
                    contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
                    m.case(w as u32, h as u32, &s, &d, true, "planes together");
                }
                // the boundary between accepted and refused
                for k in 0..s.bufs.len() + d.bufs.len() {
                    let b = if k < s.bufs.len() { &mut s.bufs[k] } else { let n = s.bufs.len(); &mut d.bufs[k - n] };
                    let l = b.1;
                    b.1 = match rng.below(4) {
                        0 => l - 1,
                        1 => rng.below(l + 1),
                        2 => l.saturating_sub(1 + rng.below(2 * w)),
                        _ => l + rng.below(40),
                    };
                    m.case(w as u32, h as u32, &s, &d, true, "length");
                    let b = if k < s.bufs.len() { &mut s.bufs[k] } else { let n = s.bufs.len(); &mut d.bufs[k - n] };
                    b.1 = l;
                }
            }
        }
        // all values
        values(&mut m, &src, c, a, &mut unit);
        odd_requests(&mut m, &src, c, a, &mut unit);
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    m.rep.sample(|| t);
    m.rep.count("instruction sets", m.isas.len() as u64);
    let _ = m.spec.convs.len();
    m.rep.finish();
}

/// Every color or triple, blocks, and random bytes that meet in each sample
fn values(m: &mut Cmp, src: &Pool, c: &crate::model::Conv, a: &Args, unit: &mut usize) {
    use super::values::{Fill, Order, ALL, SHAPE};
    let (w, h) = SHAPE;
    let order = Order::new(a.seed ^ 0x15a, c);
    let sub = [&c.src, &c.dst].iter().any(|d| d.planes.iter().flatten().any(|x| x.sx > 0));
    let n = if a.thorough { 200 } else { 8 };
    let mut jobs: Vec<(Option<Fill>, usize)> = (0..n).map(|i| (None, i)).collect();
    if c.inputs.len() >= 3 {
        jobs.extend((0..ALL.div_ceil(w * h)).map(|i| (Some(Fill::Every), i)));
        if sub {
            jobs.extend((0..n).map(|i| (Some(Fill::Constant), i)));
            jobs.extend((0..4 * n).map(|i| (Some(Fill::Mixed), i)));
        }
    }
    for (kind, i) in jobs {
        *unit += 1;
        if *unit % a.shards != a.shard {
            continue;
        }
        let mut rng = Rng::new(a.seed ^ 0x7a1 ^ ((c.id as u64) << 32) ^ i as u64);
        let (ss, ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
        let pl = [random_mid(&mut rng); 4];
        let s = src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl);
        let d = m.dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl);
        for b in &s.bufs {
            rng.fill(slice(*b));
        }
        if let Some(kind) = kind {
            order.put(c, &s.bufs, &ss.actual, kind, i);
        }
        m.case(w as u32, h as u32, &s, &d, true, "values");
        m.rep.count("values", (w * h) as u64);
    }
}

/// Lists too short, planes that do not match, strides near the machine word
fn odd_requests(m: &mut Cmp, src: &Pool, c: &crate::model::Conv, a: &Args, unit: &mut usize) {
    *unit += 1;
    if *unit % a.shards != a.shard {
        return;
    }
    let mut rng = Rng::new(a.seed ^ 0x0dd ^ ((c.id as u64) << 32));
    let huge = [0, 1, 2, 3, 31, 64, 1 << 16, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, usize::MAX / 2,
                usize::MAX / 2 + 1, usize::MAX / 3, usize::MAX / 3 + 1, usize::MAX - 1, usize::MAX];
    for _ in 0..if a.thorough { 20000 } else { 1500 } {
        let w = 1 + rng.below(40);
        let h = 1 + rng.below(6);
        let side = |rng: &mut Rng, d: &crate::model::Desc, pool: &Pool| {
            let ns = rng.below(5);
            let nb = rng.below(5);
            let st: Vec<usize> = (0..ns).map(|_| if rng.one_in(2) { 0 } else { *rng.pick(&huge) }).collect();
            let bufs = (0..nb).map(|i| {
                let l = d.planes.get(i).map_or(7, |p| needs(p, w as u64, h as u64, d.planes[i][0].row(w as u64)).min(1 << 19)) as usize;
                let l = match rng.below(4) { 0 => rng.below(l + 1), 1 => l + 5000, _ => l };
                (pool.arenas[i % 4].place(l, Place::Mid(600 + 32768 * (i / 4))), l)
            }).collect();
            Side {
                pf: if rng.one_in(8) { rng.below(9) as u32 } else { d.pf },
                cs: if rng.one_in(8) { rng.below(5) as u32 } else { d.cs },
                np: if rng.one_in(8) { *rng.pick(&[0, 1, 2, 3, 4, u32::MAX]) } else { d.np },
                strides: if rng.one_in(3) { None } else { Some(st) },
                bufs,
            }
        };
        let s = side(&mut rng, &c.src, src);
        let d = side(&mut rng, &c.dst, &m.dst);
        // rows that overlap in the destination may come in any order
        let apart = d.strides.as_ref().is_none_or(|v| v.iter().all(|&s| s == 0 || s >= 4 * w));
        let w = if rng.one_in(10) { 0 } else { w };
        m.case(w as u32, h as u32, &s, &d, apart, "odd request");
    }
    m.rep.count("odd requests", 1500);
}
