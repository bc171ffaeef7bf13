//! A conversion changes exactly the destination image. Every case runs twice,
//! over destinations that differ in every bit of every byte: afterwards, the
//! bytes of the image are the same in both, and all others are as before.
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{footprint, Desc, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};

const MARGIN: usize = 400;

struct Frame<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
}

fn canary(k: usize, address: usize) -> u8 {
    let v = (address as u8).wrapping_mul(167).wrapping_add(0x3c);
    if k == 0 { v } else { !v }
}

fn window(p: &Pool, b: (*mut u8, usize)) -> (usize, &'static mut [u8]) {
    let a = p.arena(b.0);
    let (lo, hi) = a.around(b.0, b.1, MARGIN);
    (b.0 as usize - a.data as usize - lo, &mut a.bytes()[lo..hi])
}

impl Frame<'_> {
    /// `image` is what the call is to overwrite, if it is to succeed
    #[allow(clippy::too_many_arguments)]
    fn case(&mut self, isa: Isa, w: u32, h: u32, s: &Side, d: &Side, image: Option<(&Desc, &Strides)>, phase: &str) {
        current(format_args!(
            "{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
            isa.name(), s.json(), d.json()));
        self.rep.evaluations += 1;
        isa.select();
        let before: Vec<Vec<u8>> = s.bufs.iter().map(|b| window(&self.src, *b).1.to_vec()).collect();
        let mut after: Vec<[Vec<u8>; 2]> = vec![Default::default(); d.bufs.len()];
        let mut outs = [Out::Ok; 2];
        for k in 0..2 {
            for b in &d.bufs {
                for x in window(&self.dst, *b).1.iter_mut() {
                    *x = canary(k, x as *const u8 as usize);
                }
            }
            outs[k] = convert(w, h, s, d);
            for (i, b) in d.bufs.iter().enumerate() {
                after[i][k].extend_from_slice(window(&self.dst, *b).1);
            }
        }
        for (i, b) in s.bufs.iter().enumerate() {
            let now = window(&self.src, *b).1;
            if now != &before[i][..] {
                let o = (0..now.len()).find(|&o| now[o] != before[i][o]).unwrap();
                self.rep.violation("a source buffer changed", json!({"buffer": i, "byte": o}));
                now.copy_from_slice(&before[i]);
            }
        }
        // whether the call should have succeeded is another property: judge what it said it did
        let did = outs[0] == Out::Ok;
        let mut marks: Vec<Vec<u8>> = d.bufs.iter().map(|b| vec![0; b.1]).collect();
        if let (true, Some((desc, st))) = (did, image) {
            let mut out: Vec<(&mut [u8], usize)> = marks.iter_mut().zip(&st.actual).map(|(b, &s)| (&mut b[..], s)).collect();
            footprint(desc, w as usize, h as usize, &mut out);
        }
        for i in 0..d.bufs.len() {
            let (start, win) = window(&self.dst, d.bufs[i]);
            let base = win.as_ptr() as usize;
            for o in 0..after[i][0].len() {
                let inside = o >= start && o < start + d.bufs[i].1 && marks[i][o - start] != 0;
                let (x, y) = (after[i][0][o], after[i][1][o]);
                // (what is inside of another buffer is looked at there)
                let at = base + o;
                if d.bufs.iter().enumerate().any(|(n, b)| n != i && at >= b.0 as usize && at < b.0 as usize + b.1) {
                    continue;
                }
                let ok = if inside { x == y } else { x == canary(0, at) && y == canary(1, at) };
                if !ok {
                    let mut det = json!({"outcome": outs[0].name(), "buffer": i, "offset": o as i64 - start as i64,
                                         "got": [x, y], "before": [canary(0, at), canary(1, at)]});
                    if let Some((_, st)) = image {
                        if let Some(st) = st.actual.get(i) {
                            det["stride"] = json!(st);
                        }
                    }
                    self.rep.violation(if inside { "a byte of the image was not overwritten" }
                                       else { "a byte outside the image was changed" }, det);
                    return;
                }
            }
        }
        self.rep.nontrivial += 1;
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut f = Frame { spec: &spec, rep: Report::new(), src: Pool::new(1 << 20), dst: Pool::new(1 << 20) };
    let reps = if a.thorough { 100 } else { 6 };
    let mut unit = 0;
    for c in &spec.convs {
        for w in widths(c, if a.thorough { 300 } else { 100 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0xf7a3e ^ ((c.id as u64) << 32) ^ w as u64);
            for rep in 0..if w > 260 { 2 } else { reps } {
                let h = height(&mut rng, c);
                let (ss, ds) = both_strides(&mut rng, c, w, true);
                let sl = lens(&c.src, w, h, &ss);
                let mut dl = lens(&c.dst, w, h, &ds);
                for l in &mut dl {
                    *l += *rng.pick(&[0, 0, 1, 5, 31, 100]);
                }
                let pick = |rng: &mut Rng| match rng.below(4) {
                    0 => Place::End,
                    1 => Place::Start,
                    _ => random_mid(rng),
                };
                // places of the source have slack: what is read is not the question here
                let pl: Vec<Place> = (0..4).map(|_| random_mid(&mut rng)).collect();
                let pd: Vec<Place> = (0..4).map(|_| pick(&mut rng)).collect();
                let mut s = f.src.side(&c.src, &ss, &sl, &pl);
                let mut d = f.dst.side(&c.dst, &ds, &dl, &pd);
                if rng.one_in(4) {
                    gather(&mut rng, &f.src, &mut s, &mut d, Who::Src, true);
                    gather(&mut rng, &f.dst, &mut s, &mut d, Who::Dst, false);
                }
                let (s0, d0) = (s.clone(), d.clone());
                if rng.one_in(8) {
                    surplus(&mut rng, &f.src, &mut s);
                    surplus(&mut rng, &f.dst, &mut d);
                }
                contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
                for &isa in &isas {
                    f.case(isa, w as u32, h as u32, &s, &d, Some((&c.dst, &ds)), "converted");
                }
                let (s, d) = (s0, d0);
                // the same with something amiss, and without pixels
                if rep < 3 {
                    for &isa in &isas {
                        let mut t = d.clone();
                        let k = rng.below(t.bufs.len());
                        t.bufs[k].1 = rng.below(lens(&c.dst, w, h, &ds)[k]);
                        f.case(isa, w as u32, h as u32, &s, &t, None, "short destination");
                        let mut t = s.clone();
                        let k = rng.below(t.bufs.len());
                        t.bufs[k].1 = rng.below(sl[k]);
                        f.case(isa, w as u32, h as u32, &t, &d, None, "short source");
                        let (we, he) = *rng.pick(&[(0, h as u32), (w as u32, 0), (0, 0)]);
                        f.case(isa, we, he, &s, &d, None, "empty");
                        let mut t = d.clone();
                        match rng.below(3) {
                            0 => t.np = *rng.pick(&[0, 4, 5, u32::MAX, if t.np == 1 { 3 } else { t.np - 1 }]),
                            1 => t.cs = if t.cs == 0 { 1 + rng.below(4) as u32 } else { 0 },
                            _ => t.pf = *rng.pick(&[3, 6]),
                        }
                        // a different description may be convertible, so that this may succeed
                        if !spec.convs.iter().any(|x| x.src.pf == s.pf && x.dst.pf == t.pf && x.dst.cs == t.cs
                            && x.dst.np == t.np && x.src.cs == s.cs) {
                            f.case(isa, w as u32, h as u32, &s, &t, None, "refused description");
                        }
                    }
                }
            }
        }
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    f.rep.sample(|| t);
    let _ = f.spec.convs.len();
    f.rep.finish();
}
