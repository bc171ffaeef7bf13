//! A call in the middle of others against the same call alone in a process
//! that never used the library, with a destination that held something else.
use crate::calls::{child_isas, in_child, Call, Shared};
use crate::lay::Pool;
use crate::report::{current, Report};
use crate::rng::Rng;
use super::pairs::call_pair;
use crate::Args;
use super::record::Log;
use serde_json::json;

const MAX: usize = 16;

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let (src, dst) = (Pool::new(1 << 16), Pool::new(1 << 16));
    let alt = Pool::new(1 << 16);
    let shared = Shared::new(MAX << 16);
    let isas = child_isas();
    // pairs for TLC, where asked for
    let mut log = (!a.get("out").is_empty()).then(|| Log::new(a.get("out")));
    let pairs = a.num("events", 0) as u64;
    let mut rng = Rng::new(a.seed ^ 0x415 ^ ((a.shard as u64) << 40));
    for round in 0..if a.thorough { 12_000 } else { 500 } {
        let isa = isas[round % isas.len()];
        let n = 4 + rng.below(MAX - 4);
        let mut seq: Vec<Call> = vec![Call::any(&mut rng, &spec)];
        while seq.len() < n {
            let x = match rng.below(6) {
                0 => Call::any(&mut rng, &spec),
                1 => {
                    let mut x = rng.pick(&seq).clone();
                    if let Call::Convert { chained, .. } = &mut x {
                        *chained = false;
                    }
                    x
                }
                2 => chain(&mut rng, &spec, seq.last().unwrap()).unwrap_or_else(|| seq.last().unwrap().vary(&mut rng, &spec)),
                _ => { let k = rng.below(seq.len()); seq[k].vary(&mut rng, &spec) }
            };
            seq.push(x);
        }
        // pools take turns, so that a chained call finds its source in place
        let pools = |k: usize| -> (&Pool, &Pool) {
            let turned = |k: usize| (0..=k).filter(|&j| matches!(seq[j], Call::Convert { chained: true, .. })).count() % 2 == 1;
            if turned(k) { (&dst, &src) } else { (&src, &dst) }
        };
        shared.clear(MAX);
        current(format_args!("{{\"isa\":\"{}\",\"round\":{round},\"calls\":{}}}", isa.name(), n));
        let seed = rng.next();
        let end = in_child(150, || {
            isa.select();
            for (k, c) in seq.iter().enumerate() {
                let (s, d) = pools(k);
                if !matches!(c, Call::Convert { chained: true, .. }) {
                    c.prepare(&spec, s, d, None);
                }
                let r = c.make(&spec, s, d, seed + k as u64, false);
                shared.put(k, MAX, &r);
            }
        });
        let got: Vec<Option<Vec<u8>>> = (0..n).map(|k| shared.get(k, MAX)).collect();
        let mut bad = None;
        for (k, c) in seq.iter().enumerate() {
            let given: Option<Vec<Vec<u8>>> = match c {
                Call::Convert { chained: true, .. } => match &got[k - 1] {
                    Some(r) => Some(seq[k - 1].buffers(r)),
                    None => break,
                },
                _ => None,
            };
            shared.clear(MAX);
            let alone_end = in_child(150, || {
                isa.select();
                c.prepare(&spec, &alt, &dst, given.as_deref());
                let r = c.make(&spec, &alt, &dst, !seed, false);
                shared.put(0, MAX, &r);
            });
            rep.evaluations += 1;
            let alone = shared.get(0, MAX);
            match (&got[k], &alone) {
                (Some(g), Some(w)) => {
                    if let (Some(log), Call::Convert { i, .. }) = (&mut log, c) {
                        if log.lines < pairs && g.len() == w.len() && g.len() > 1 && i.w <= 40 {
                            let d0: Vec<Vec<u8>> = c.seeded_buffers(seed + k as u64);
                            let d1: Vec<Vec<u8>> = c.seeded_buffers(!seed);
                            let src_bytes = given.clone().unwrap_or_else(|| c.source_buffers());
                            call_pair(log, &spec, c, (&alt, &dst), &src_bytes, [&d0, &d1], [g, w]);
                        }
                        if log.lines >= pairs {
                            log.flush();
                            rep.sample(|| c.json(&spec));
                            return rep.finish();
                        }
                    }
                    let (g, w) = (c.visible(&spec, g), c.visible(&spec, w));
                    rep.nontrivial += 1;
                    if g != w {
                        let o = (0..g.len().min(w.len())).find(|&o| g[o] != w[o]);
                        bad = Some((k, json!({"difference at": o, "in sequence": o.map(|o| g[o]), "alone": o.map(|o| w[o]),
                                              "outcomes": [g[0], w[0]]})));
                        break;
                    }
                }
                (None, Some(_)) => {
                    bad = Some((k, json!({"in sequence": end, "alone": "returned"})));
                    break;
                }
                // it fails alone, too
                _ => {
                    let _ = alone_end;
                    break;
                }
            }
        }
        if let (Some((k, d)), true) = (bad, log.is_none()) {
            let calls: Vec<_> = seq[..=k].iter().map(|c| c.json(&spec)).collect();
            rep.violation("the same call had another result after other calls",
                          json!({"what": d, "history": calls}));
        }
        rep.sample(|| json!({"history": seq.iter().take(3).map(|c| c.json(&spec)).collect::<Vec<_>>()}));
    }
    if let Some(l) = &mut log {
        l.flush();
    }
    rep.finish();
}

/// A conversion of what the last call produced
fn chain(rng: &mut Rng, spec: &crate::model::Spec, last: &Call) -> Option<Call> {
    let Call::Convert { i, .. } = last else { return None };
    if i.w == 0 || i.h == 0 || i.cs.is_some() || i.np.is_some() {
        return None;
    }
    let d = &spec.convs[i.conv].dst;
    let next: Vec<_> = spec.convs.iter().filter(|c| {
        (c.src.pf, c.src.cs, c.src.np) == (d.pf, d.cs, d.np) && (!c.even_w || i.w % 2 == 0) && (!c.even_h || i.h % 2 == 0)
    }).collect();
    if next.is_empty() {
        return None;
    }
    let c = next[rng.below(next.len())];
    let mut n = crate::calls::image(rng, spec, c);
    (n.w, n.h) = (i.w, i.h);
    (n.ss, n.sl) = (i.ds.clone(), i.dl.clone());
    for k in 0..4 {
        n.at[k] = i.at[4 + k];
    }
    n.ds = crate::lay::random_strides(rng, &c.dst, n.w, false);
    n.dl = crate::lay::lens(&c.dst, n.w, n.h, &n.ds);
    // (the C interface does not know lengths)
    let short = n.sl.iter().zip(crate::lay::lens(&c.src, n.w, n.h, &n.ss)).any(|(&l, need)| l < need);
    Some(Call::Convert { c: crate::calls::c_too(rng) && !short, i: n, chained: true })
}
