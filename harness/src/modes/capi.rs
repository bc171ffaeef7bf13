//! The C interface against the Rust interface.
use super::crecord::{c_numbers, desc_of};
use crate::exec::{c, convert, sizes, Out, Side};
use crate::lay::*;
use crate::mem::Tight;
use crate::model::Conv;
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};
use std::ptr::{null, null_mut};

/// A C call: outcome as far as it can be told, and whether the error location
/// was used properly. The arrays have an entry for each plane, and no more.
fn c_call(t: &Tight, w: u32, h: u32, s: &Side, d: &Side, error: bool) -> (i32, Out, bool) {
    let (sd, dd) = (c_numbers(desc_of(s)), c_numbers(desc_of(d)));
    let planes = |s: &Side| s.np.clamp(1, 3) as usize;
    let some = |slot: usize, s: &Side| match &s.strides {
        Some(v) => {
            let mut v = v.clone();
            v.resize(planes(s), usize::MAX);
            t.constant(slot, &v)
        }
        None => null(),
    };
    let bufs = |s: &Side| -> Vec<*mut u8> {
        s.bufs.iter().map(|b| b.0).chain([1 as *mut u8; 3]).take(planes(s)).collect()
    };
    let e = t.place(6, &[c::UNTOUCHED]);
    let r = unsafe {
        c::shim_convert_at(w, h, t.constant(0, &c::build(&sd)), some(1, s), t.constant(2, &bufs(s)).cast(),
                           t.constant(3, &c::build(&dd)), some(4, d), t.constant(5, &bufs(d)),
                           if error { e } else { null_mut() })
    };
    let (o, clean) = c::outcome(r, error.then(|| unsafe { *e }));
    (r, o, clean)
}

struct Cap {
    rep: Report,
    tight: Tight,
    src: Pool,
    dst: [Pool; 2],
}

impl Cap {
    fn agree(&mut self, rust: Out, r: i32, o: Out, clean: bool, error: bool) -> bool {
        if error {
            if o != rust {
                self.rep.violation("the C interface has another outcome", json!({"rust": rust.name(), "c": o.name(), "returned": r}));
                return false;
            }
            if !clean {
                self.rep.violation("the error location was not used as documented", json!({"outcome": o.name(), "returned": r}));
                return false;
            }
        } else if (rust == Out::Ok) != (o == Out::Ok) || !clean {
            self.rep.violation("the C interface has another outcome", json!({"rust": rust.name(), "c returned": r, "error": null}));
            return false;
        }
        true
    }

    fn request(&mut self, c: &Conv, rng: &mut Rng, w: usize, h: usize) {
        let (ss, ds) = both_strides(rng, c, w, true);
        let room = |l: Vec<usize>, rng: &mut Rng| -> Vec<usize> { l.iter().map(|&x| x + rng.below(3) * 40).collect() };
        let (sl, dl) = (room(lens(&c.src, w, h, &ss), rng), room(lens(&c.dst, w, h, &ds), rng));
        let places: Vec<_> = (0..4).map(|_| random_mid(rng)).collect();
        let mut s = self.src.side(&c.src, &ss, &sl, &places);
        contents(rng, &c.src, &ss, &s.bufs, w, h);
        let mut d: Vec<Side> = self.dst.iter().map(|p| p.side(&c.dst, &ds, &dl, &places)).collect();
        if rng.one_in(4) {
            gather(rng, &self.src, &mut s, &mut d[0], Who::Src, true);
            contents(rng, &c.src, &ss, &s.bufs, w, h);
            let state = rng.clone();
            for (p, d) in self.dst.iter().zip(&mut d) {
                *rng = state.clone();
                gather(rng, p, &mut s, d, Who::Dst, false);
            }
        }
        let (mut w, mut h) = (w as u32, h as u32);
        // something else than a proper request
        match rng.below(16) {
            0 => s.cs = rng.below(5) as u32,
            1 => {
                let x = rng.below(5) as u32;
                d.iter_mut().for_each(|d| d.cs = x);
            }
            // (a format that the same buffers serve, larger than needed or not converted at all)
            2 => s.pf = *rng.pick(&[1, 2, 4, 6]),
            3 => {
                let x = *rng.pick(&[0, 2, 4, 6]);
                d.iter_mut().for_each(|d| d.pf = x);
            }
            4 => s.np = *rng.pick(&[0, 1, 2, 3, 4, 7, 1 << 20]),
            5 => {
                let x = *rng.pick(&[0, 1, 2, 3, 4, 9, u32::MAX]);
                d.iter_mut().for_each(|d| d.np = x);
            }
            6 => w = 0,
            7 => h = 0,
            8 => {
                w -= 1;
                h = h.max(2) - 1;
            }
            _ => {}
        }
        // in every case the buffers must be large enough for what is described
        let side_ok = |s: &Side, orig: &crate::model::Desc| (s.pf, s.np) == (orig.pf, orig.np);
        if !side_ok(&s, &c.src) || !side_ok(&d[0], &c.dst) {
            let roomy = 4 * 1100 * 12;
            for (k, b) in s.bufs.iter_mut().enumerate() {
                *b = (self.src.arenas[k].place(roomy, places[k]), roomy);
            }
            while s.bufs.len() < 3 {
                let k = s.bufs.len();
                s.bufs.push((self.src.arenas[k].place(roomy, places[k]), roomy));
            }
            s.strides = None;
            for (n, d) in d.iter_mut().enumerate() {
                d.bufs = (0..3).map(|k| (self.dst[n].arenas[k].place(roomy, places[k]), roomy)).collect();
                d.strides = None;
            }
        }
        let error = !rng.one_in(5);
        let mut outs = vec![];
        let fillers = rng.next();
        for side in &d {
            for b in &side.bufs {
                let m = unsafe { std::slice::from_raw_parts_mut(b.0.sub(64), b.1 + 128) };
                Rng::new(fillers).fill(m);
            }
        }
        current(format_args!("{{\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"error\":{error}}}", s.json(), d[0].json()));
        let rust = convert(w, h, &s, &d[0]);
        let (r, o, clean) = c_call(&self.tight, w, h, &s, &d[1], error);
        outs.push(rust);
        self.rep.evaluations += 1;
        self.rep.count(rust.name(), 1);
        if rust == Out::NotEnoughData {
            // the C interface takes buffers to be large enough: not comparable
            return;
        }
        self.rep.nontrivial += 1;
        if !self.agree(rust, r, o, clean, error) {
            return;
        }
        for k in 0..d[0].bufs.len() {
            let win = |s: &Side| unsafe { std::slice::from_raw_parts(s.bufs[k].0.sub(64), s.bufs[k].1 + 128) };
            let (x, y) = (win(&d[0]), win(&d[1]));
            if let Some(i) = (0..x.len()).find(|&i| x[i] != y[i]) {
                self.rep.violation("the C interface produced another byte", json!({
                    "buffer": k, "offset": i as i64 - 64, "rust": x[i], "c": y[i]}));
                return;
            }
        }
    }

    fn size_query(&mut self, a: &Args, spec: &crate::model::Spec, rng: &mut Rng) {
        let f = rng.pick(&spec.formats);
        let np = rng.pick(&f.layouts).0;
        let np = if rng.one_in(4) { rng.other(np) } else { np };
        let dim = |rng: &mut Rng| match rng.below(3) {
            0 => rng.below(70) as u32,
            1 => rng.next() as u32 >> rng.below(32),
            _ => *rng.pick(&[0, 1, 2, 65535, 65536, 1 << 31, u32::MAX - 1, u32::MAX]),
        };
        let (w, h) = (dim(rng), dim(rng));
        let (w, h) = if rng.one_in(5) { (w, h) } else { (w & !1, h & !1) };
        let strides: Option<Vec<usize>> = (!rng.one_in(3)).then(|| {
            (0..3).map(|_| match rng.below(4) {
                0 => 0,
                1 => rng.below(9999),
                2 => usize::MAX >> rng.below(64),
                _ => rng.next() as usize >> rng.below(64),
            }).collect()
        });
        let cs = rng.below(5) as u32;
        let error = !rng.one_in(5);
        let _ = a;
        current(format_args!("{{\"call\":\"sizes\",\"w\":{w},\"h\":{h},\"pf\":{},\"np\":{np},\"strides\":{},\"error\":{error}}}", f.pf, json!(strides)));
        let before: Vec<usize> = (0..5).map(|_| rng.next() as usize).collect();
        let (mut x, mut y) = (before.clone(), before.clone());
        let rust = sizes(w, h, f.pf, cs, np, strides.as_deref(), &mut x);
        // (the arrays have an entry for each plane, and no more)
        let n = np.clamp(1, 3) as usize;
        let t = &self.tight;
        let d = t.constant(0, &c::build(&c_numbers(c::CDesc { pf: f.pf, cs, np })));
        let st = strides.as_ref().map_or(null(), |v| t.constant(1, &v[..n]));
        let (array, e) = (t.place(2, &y[..n]), t.place(6, &[c::UNTOUCHED]));
        let r = unsafe { c::shim_sizes_at(w, h, d, st, array, if error { e } else { null_mut() }) };
        let e = unsafe { *e };
        y[..n].copy_from_slice(unsafe { std::slice::from_raw_parts(array, n) });
        let (o, clean) = c::outcome(r, error.then_some(e));
        self.rep.evaluations += 1;
        self.rep.nontrivial += 1;
        self.rep.count(&format!("sizes {}", rust.name()), 1);
        if self.agree(rust, r, o, clean, error) && x != y {
            self.rep.violation("the C interface returned other sizes", json!({"rust": x, "c": y, "before": before}));
        }
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut k = Cap { rep: Report::new(), tight: Tight::new(), src: Pool::new(1 << 20), dst: [Pool::new(1 << 20), Pool::new(1 << 20)] };
    let mut unit = 0;
    for cv in &spec.convs {
        for w in widths(cv, if a.thorough { 300 } else { 100 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0xca91 ^ ((cv.id as u64) << 32) ^ w as u64);
            for _ in 0..if w > 260 { 2 } else if a.thorough { 300 } else { 24 } {
                let h = height(&mut rng, cv);
                k.request(cv, &mut rng, w, h);
            }
        }
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    k.rep.sample(|| t);
    let mut rng = Rng::new(a.seed ^ 0xca92 ^ ((a.shard as u64) << 40));
    for _ in 0..if a.thorough { 2_000_000 } else { 100_000 } {
        k.size_query(a, &spec, &mut rng);
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    k.rep.sample(|| t);
    k.rep.finish();
}
