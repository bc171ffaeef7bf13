//! Buffers of the size the library itself asks for are accepted by the
//! library, and hold the image.
use crate::exec::{convert, isas, sizes, Out};
use crate::lay::*;
use crate::mem::{sparse, unmap_sparse, Place};
use crate::model::{needs, packed, Desc};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};

/// What the query says, where it says anything
pub fn ask(rng: &mut Rng, w: usize, h: usize, d: &Desc, s: &Strides) -> Option<Vec<usize>> {
    let n = d.planes.len();
    let mut array = vec![usize::MAX / 5; n + rng.below(3)];
    let cs = if rng.one_in(3) { rng.below(5) as u32 } else { d.cs };
    (sizes(w as u32, h as u32, d.pf, cs, d.np, s.given.as_deref(), &mut array) == Out::Ok).then(|| array[..n].to_vec())
}

/// Strides of zero or at least a row
pub fn legal_strides(rng: &mut Rng, d: &Desc, w: usize) -> Strides {
    let mut s = random_strides(rng, d, w, false);
    if let Some(g) = &mut s.given {
        for (k, p) in d.planes.iter().enumerate() {
            if rng.one_in(40) {
                g[k] = packed(p, w as u64) as usize + (1 << (10 + rng.below(12)));
                s.actual[k] = g[k];
            }
        }
    }
    s
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut rep = Report::new();
    let (src, dst) = (Pool::new(1 << 21), Pool::new(1 << 21));
    let mut unit = 0;
    for c in &spec.convs {
        for w in widths(c, if a.thorough { 400 } else { 130 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x5ff1 ^ ((c.id as u64) << 32) ^ w as u64);
            for _ in 0..if a.thorough { 120 } else { 40 } {
                let h = if rng.one_in(30) { 64 } else { height(&mut rng, c) };
                let (ss, ds) = (legal_strides(&mut rng, &c.src, w), legal_strides(&mut rng, &c.dst, w));
                current(format_args!("{{\"conv\":\"{}\",\"w\":{w},\"h\":{h},\"strides\":[{},{}]}}", spec.name(c), json!(ss.given), json!(ds.given)));
                let (Some(sl), Some(dl)) = (ask(&mut rng, w, h, &c.src, &ss), ask(&mut rng, w, h, &c.dst, &ds)) else {
                    rep.count("query refused", 1);
                    continue;
                };
                rep.evaluations += 1;
                let mut fits = true;
                for (d, s, l) in [(&c.src, &ss, &sl), (&c.dst, &ds, &dl)] {
                    for (k, p) in d.planes.iter().enumerate() {
                        let need = needs(p, w as u64, h as u64, s.actual[k] as u64) as usize;
                        if l[k] < need {
                            fits = false;
                            rep.violation("the image does not fit in a buffer of the size the query returned",
                                          json!({"plane": k, "returned": l[k], "needed": need}));
                        }
                    }
                }
                let isa = *rng.pick(&isas);
                isa.select();
                let mut maps = vec![];
                let total: usize = sl.iter().chain(&dl).sum();
                if total > 1 << 38 {
                    rep.count("too large to try", 1);
                    continue;
                }
                let mut place = |pool: &Pool, d: &Desc, s: &Strides, l: &[usize]| {
                    let small: Vec<usize> = l.iter().map(|&n| n.min(1 << 20)).collect();
                    let mut side = pool.side(d, s, &small, &[Place::Mid(4096); 4]);
                    for (k, &n) in l.iter().enumerate() {
                        if n > 1 << 20 {
                            let n4 = n.div_ceil(4096) * 4096;
                            let m = sparse(n4).expect("memory");
                            maps.push((m, n4));
                            side.bufs[k] = (m, n);
                        }
                    }
                    side
                };
                let s = place(&src, &c.src, &ss, &sl);
                let d = place(&dst, &c.dst, &ds, &dl);
                if fits {
                    current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}", isa.name(), s.json(), d.json()));
                    let r = convert(w as u32, h as u32, &s, &d);
                    rep.nontrivial += 1;
                    if r != Out::Ok {
                        rep.violation("buffers of the queried sizes were refused", json!({"outcome": r.name()}));
                    }
                }
                for (m, l) in maps {
                    unmap_sparse(m, l);
                }
            }
        }
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    rep.sample(|| t);
    rep.finish();
}
