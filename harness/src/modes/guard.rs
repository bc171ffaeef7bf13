//! Nothing outside the buffers is accessed: they end or begin where memory
//! does. And nothing at all is accessed when the request is refused: then
//! the buffers are not accessible in the first place.
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::{phantom, Place};
use crate::model::{needs, packed, Conv, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};

const MARGIN: usize = 300;

struct Guard<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
    nowhere: *mut u8,
}

impl Guard<'_> {
    fn call(&mut self, isa: Isa, w: u32, h: u32, s: &Side, d: &Side, want: Out, phase: &str) -> bool {
        current(format_args!(
            "{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
            isa.name(), s.json(), d.json()));
        self.rep.evaluations += 1;
        isa.select();
        let r = convert(w, h, s, d);
        if r != want {
            self.rep.violation(
                if want == Out::Ok { "buffers that reach the last byte of the image were refused" }
                else { "a buffer too short for the image was accepted" },
                json!({"outcome": r.name(), "expected": want.name()}));
            return false;
        }
        true
    }

    fn accepted(&mut self, c: &Conv, isa: Isa, w: usize, h: usize, ss: &Strides, ds: &Strides, extra: usize, place: Place) {
        let (mut sl, mut dl) = (lens(&c.src, w, h, ss), lens(&c.dst, w, h, ds));
        for l in sl.iter_mut().chain(dl.iter_mut()) {
            *l += extra;
        }
        let pl = [place; 4];
        let s = self.src.side(&c.src, ss, &sl, &pl);
        let d = self.dst.side(&c.dst, ds, &dl, &pl);
        // accessible memory next to the destination
        for (i, b) in d.bufs.iter().enumerate() {
            let (lo, hi) = self.dst.arenas[i].around(b.0, b.1, MARGIN);
            self.dst.arenas[i].bytes()[lo..hi].fill(0x6b);
        }
        self.call(isa, w as u32, h as u32, &s, &d, Out::Ok, "exact buffers");
        for (i, b) in d.bufs.iter().enumerate() {
            let ar = &self.dst.arenas[i];
            let off = b.0 as usize - ar.data as usize;
            let (lo, hi) = ar.around(b.0, b.1, MARGIN);
            let m = ar.bytes();
            if let Some(o) = (lo..off).chain(off + b.1..hi).find(|&o| m[o] != 0x6b) {
                self.rep.violation("a byte next to a destination buffer was written",
                                   json!({"buffer": i, "offset": o as i64 - off as i64, "len": b.1}));
            }
        }
        self.rep.nontrivial += 1;
    }

    /// One buffer is too short
    #[allow(clippy::too_many_arguments)]
    fn refused(&mut self, c: &Conv, isa: Isa, w: usize, h: usize, ss: &Strides, ds: &Strides, k: usize, cut: usize) {
        let (mut sl, mut dl) = (lens(&c.src, w, h, ss), lens(&c.dst, w, h, ds));
        let ns = sl.len();
        let l = if k < ns { &mut sl[k] } else { &mut dl[k - ns] };
        *l = l.saturating_sub(cut);
        let gone = |lens: &[usize]| -> Vec<(*mut u8, usize)> {
            lens.iter().enumerate().map(|(i, &l)| (unsafe { self.nowhere.add(i << 32) }, l)).collect()
        };
        let s = Side { pf: c.src.pf, cs: c.src.cs, np: c.src.np, strides: ss.given.clone(), bufs: gone(&sl) };
        let d = Side { pf: c.dst.pf, cs: c.dst.cs, np: c.dst.np, strides: ds.given.clone(), bufs: gone(&dl) };
        self.call(isa, w as u32, h as u32, &s, &d, Out::NotEnoughData, "short buffer");
        self.rep.nontrivial += 1;
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut g = Guard {
        spec: &spec, rep: Report::new(), src: Pool::new(1 << 20), dst: Pool::new(1 << 20), nowhere: phantom(1 << 36),
    };
    // nothing is ever written to a source
    let mut rng = Rng::new(a.seed ^ 0x50);
    for ar in &g.src.arenas {
        rng.fill(ar.bytes());
        ar.freeze();
    }
    let reps = if a.thorough { 120 } else { 5 };
    let mut unit = 0;
    for c in &spec.convs {
        let nb = c.src.planes.len() + c.dst.planes.len();
        for w in widths(c, if a.thorough { 300 } else { 140 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x67a2d ^ ((c.id as u64) << 32) ^ w as u64);
            for rep in 0..if w > 260 { 2 } else { reps } {
                let h = height(&mut rng, c);
                let (ss, ds) = if rep == 0 {
                    (default_strides(&c.src, w), default_strides(&c.dst, w))
                } else {
                    (random_strides(&mut rng, &c.src, w, true), random_strides(&mut rng, &c.dst, w, true))
                };
                for &isa in &isas {
                    g.accepted(c, isa, w, h, &ss, &ds, 0, Place::End);
                    g.accepted(c, isa, w, h, &ss, &ds, 0, Place::Start);
                    let extra = 1 + rng.below(40);
                    g.accepted(c, isa, w, h, &ss, &ds, extra, Place::End);
                    for k in 0..nb {
                        g.refused(c, isa, w, h, &ss, &ds, k, 1);
                        let cut = 1 + rng.below(w * 4);
                        g.refused(c, isa, w, h, &ss, &ds, k, cut);
                    }
                    // nothing to convert, nothing to touch
                    let k = rng.below(nb);
                    empty(&mut g, c, isa, w, h, k);
                }
            }
        }
        // large images: offsets beyond 4 GiB
        unit += 1;
        if unit % a.shards == a.shard {
            far(&mut g, c, &isas, a);
        }
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    g.rep.sample(|| t);
    let _ = g.spec.convs.len();
    g.rep.finish();
}

fn empty(g: &mut Guard, c: &Conv, isa: Isa, w: usize, h: usize, k: usize) {
    let side = |d: &crate::model::Desc, n: usize| Side {
        pf: d.pf, cs: d.cs, np: d.np, strides: None,
        bufs: (0..n).map(|i| (unsafe { g.nowhere.add(i << 32) }, if (k + i) % 2 == 0 { 0 } else { 1 << 20 })).collect(),
    };
    let (s, d) = (side(&c.src, c.src.planes.len() - usize::from(k == 0)), side(&c.dst, c.dst.planes.len()));
    let (w, h) = if k % 2 == 0 { (0, h) } else { (w, 0) };
    current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"empty\"}}",
        isa.name(), s.json(), d.json()));
    g.rep.evaluations += 1;
    isa.select();
    convert(w as u32, h as u32, &s, &d);
}

/// Rows that are gigabytes apart: the buffers exist, but only the pages of the
/// rows are ever backed. In front of and after the buffers nothing exists.
fn far(g: &mut Guard, c: &Conv, isas: &[Isa], a: &Args) {
    let w = 34;
    let mut rng = Rng::new(a.seed ^ 0xfa2 ^ c.id as u64);
    let step = (1usize << 31) + 4096 * rng.below(1000) + rng.below(4096);
    for &isa in isas {
        for which in 0..c.src.planes.len() + c.dst.planes.len() {
            let h = if c.even_h { 4 } else { 3 };
            let (mut ss, mut ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
            let ns = c.src.planes.len();
            let (st, k) = if which < ns { (&mut ss, which) } else { (&mut ds, which - ns) };
            st.actual[k] = step;
            ss.given = Some(ss.actual.clone());
            ds.given = Some(ds.actual.clone());
            let (sl, dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
            let pl = [Place::End; 4];
            let (plane, long) = if which < ns { (&c.src.planes[which], sl[which]) } else { (&c.dst.planes[which - ns], dl[which - ns]) };
            assert_eq!(long as u64, needs(plane, w as u64, h as u64, step as u64));
            assert!(packed(plane, w as u64) < 4096);
            let Some(mem) = crate::mem::sparse(long.div_ceil(4096) * 4096) else {
                g.rep.count("no memory for distant rows", 1);
                continue;
            };
            let base = unsafe { mem.add(long.div_ceil(4096) * 4096 - long) };
            let small = |l: &[usize], k: Option<usize>| -> Vec<usize> {
                l.iter().enumerate().map(|(i, &l)| if Some(i) == k { 0 } else { l }).collect()
            };
            let (ks, kd) = if which < ns { (Some(which), None) } else { (None, Some(which - ns)) };
            let mut s = g.src.side(&c.src, &ss, &small(&sl, ks), &pl);
            let mut d = g.dst.side(&c.dst, &ds, &small(&dl, kd), &pl);
            if let Some(k) = ks {
                s.bufs[k] = (base, long);
            }
            if let Some(k) = kd {
                d.bufs[k] = (base, long);
            }
            g.call(isa, w as u32, h as u32, &s, &d, Out::Ok, "distant rows");
            g.rep.count("distant rows", 1);
            crate::mem::unmap_sparse(mem, long.div_ceil(4096) * 4096);
        }
    }
}
