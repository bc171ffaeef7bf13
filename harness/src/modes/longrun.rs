//! Long histories: thousands of calls in one process, most of them much like
//! an earlier one. What the specification predicts tells which calls to look
//! at; those are judged against the same call alone in a process that never
//! used the library.
use crate::calls::{child_isas, in_child, Call, Image, Shared};
use crate::lay::*;
use crate::model::{packed, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use crate::exec::Out;
use serde_json::json;

const SLOTS: usize = 24;
const ARENA: usize = 1 << 22;
/// (of bytes of any plane)
const LARGEST: usize = 1 << 20;

fn fits(spec: &Spec, i: &Image) -> bool {
    let c = &spec.convs[i.conv];
    [(&c.src, &i.ss), (&c.dst, &i.ds)].iter().all(|(d, s)| {
        d.planes.iter().zip(&s.actual).all(|(p, &s)| {
            let rows = crate::model::total_rows(p, i.h as u64);
            rows > 0 && (rows as u128) * (s as u128) < LARGEST as u128
        })
    })
}

/// Numbers of the geometry that a careless summary would take for (w, h)
fn alike(rng: &mut Rng, w: usize, h: usize) -> (usize, usize) {
    let (w, h) = (w as u32, h as u32);
    let k = 1 + rng.below(6) as u32;
    let b = *rng.pick(&[0, 3, 4, 5, 6, 8, 10, 12, 15, 16, 20]);
    let (w, h) = match rng.below(12) {
        0 => (w ^ (1 << rng.below(20)), h),
        1 => (w, h ^ (1 << rng.below(20))),
        2 => (w.wrapping_add(k), h.wrapping_sub(k << b)),
        3 => (w.wrapping_sub(k), h.wrapping_add(k << b)),
        4 => (w.wrapping_sub(k << b), h.wrapping_add(k)),
        5 => (w.wrapping_add(k << b), h.wrapping_sub(k)),
        6 => (h, w),
        7 => (w.wrapping_add(1 << *rng.pick(&[8, 10, 12, 16, 24])), h),
        8 => (w, h.wrapping_add(1 << *rng.pick(&[8, 10, 12, 16, 24]))),
        9 => (w << (1 + rng.below(3)), h >> (1 + rng.below(3))),
        10 => (w >> (1 + rng.below(3)), h << (1 + rng.below(3))),
        _ => (w ^ h, h ^ w),
    };
    (w as usize, h as usize)
}

fn next(rng: &mut Rng, spec: &Spec, seq: &[Call]) -> Call {
    let recent = if rng.one_in(2) { seq.len().saturating_sub(4) } else { 0 };
    let from = &seq[recent + rng.below(seq.len() - recent)];
    let Call::Convert { i, .. } = from else { return Call::any(rng, spec) };
    let mut i = i.clone();
    let cv = &spec.convs[i.conv];
    match rng.below(12) {
        0 => return Call::any(rng, spec),
        1 => return from.vary(rng, spec),
        // a tall image, for others to be confused with
        2 if rng.one_in(8) => {
            i.h = 2 * rng.below(200) + *rng.pick(&[1 << 8, 1 << 12, 1 << 15, 1 << 16]);
            i.w = 2 + 2 * rng.below(3);
            let (ss, ds) = (random_strides(rng, &cv.src, i.w, false), random_strides(rng, &cv.dst, i.w, false));
            (i.ss, i.ds) = (ss, ds);
            (i.cs, i.np) = (None, None);
            if fits(spec, &i) {
                i.sl = lens(&cv.src, i.w, i.h, &i.ss);
                i.dl = lens(&cv.dst, i.w, i.h, &i.ds);
            }
        }
        // other lengths
        2 | 3 => {
            let n = i.sl.len();
            let k = rng.below(n + i.dl.len());
            let l = if k < n { &mut i.sl[k] } else { &mut i.dl[k - n] };
            *l = match rng.below(3) { 0 => l.saturating_sub(1 + rng.below(40)), 1 => *l ^ (1 << rng.below(16)), _ => l.saturating_sub(256 << rng.below(9)) }.min(LARGEST);
        }
        // other strides, for the same memory
        4 => {
            let left = rng.one_in(2);
            let s = if left { &mut i.ss } else { &mut i.ds };
            let k = rng.below(s.actual.len());
            let x = match rng.below(3) { 0 => s.actual[k] ^ (1 << rng.below(20)), 1 => s.actual[k].wrapping_add(1 << *rng.pick(&[8, 16, 24, 32, 48])), _ => s.actual[k] + 1 + rng.below(3) };
            if x > 0 {
                s.actual[k] = x;
                let g: Vec<usize> = s.actual.clone();
                s.given = Some(g);
            }
        }
        _ => {
            (i.w, i.h) = alike(rng, i.w, i.h);
            if !rng.one_in(6) {
                if cv.even_w { i.w &= !1 }
                if cv.even_h { i.h &= !1 }
            }
            // strides of none or zero follow the width
            for (s, d) in [(&mut i.ss, &cv.src), (&mut i.ds, &cv.dst)] {
                for (k, p) in d.planes.iter().enumerate() {
                    if s.given.as_ref().is_none_or(|g| g[k] == 0) {
                        s.actual[k] = packed(p, i.w as u64) as usize;
                    }
                }
            }
            if rng.one_in(3) && i.w > 0 && i.h > 0 {
                let (ss, ds) = (random_strides(rng, &cv.src, i.w, false), random_strides(rng, &cv.dst, i.w, false));
                let old = (i.ss.clone(), i.ds.clone());
                (i.ss, i.ds) = (ss, ds);
                if fits(spec, &i) {
                    i.sl = lens(&cv.src, i.w, i.h, &i.ss);
                    i.dl = lens(&cv.dst, i.w, i.h, &i.ds);
                } else {
                    (i.ss, i.ds) = old;
                }
            }
        }
    }
    if rng.one_in(3) {
        i.seed = rng.next();
    }
    Call::Convert { c: false, i, chained: false }
}

/// What the tables of the specification predict of the outcome
fn predicted(spec: &Spec, i: &Image) -> Out {
    let c = &spec.convs[i.conv];
    let (w, h) = (i.w as u32, i.h as u32);
    let (cs, np) = (i.cs.unwrap_or(c.dst.cs), i.np.unwrap_or(c.dst.np));
    if !spec.describes(c.src.pf, c.src.cs, c.src.np, w, h) || !spec.describes(c.dst.pf, cs, np, w, h) {
        return Out::InvalidValue;
    }
    if w == 0 || h == 0 {
        return Out::Ok;
    }
    let short = [(&c.src, &i.ss, &i.sl), (&c.dst, &i.ds, &i.dl)].iter().any(|(d, s, l)| {
        d.planes.iter().zip(&s.actual).zip(*l).any(|((p, &s), &l)| {
            let rows = u128::from(crate::model::total_rows(p, u64::from(h)));
            // (areas that share a buffer stay apart)
            p.len() > 1 && (s as u64) < packed(p, u64::from(w)) || s as u128 * (rows - 1) + u128::from(p.last().unwrap().row(u64::from(w))) > l as u128
        })
    });
    if short { Out::NotEnoughData } else { Out::Ok }
}

/// Rows of the destination share no byte
fn apart(spec: &Spec, i: &Image) -> bool {
    let d = &spec.convs[i.conv].dst;
    i.w > 0 && i.h > 0 && i.cs.is_none() && i.np.is_none() && d.planes.iter().zip(&i.ds.actual).all(|(p, &s)| s >= packed(p, i.w as u64) as usize)
}

/// Is this result the predicted one?
fn suspicious(spec: &Spec, call: &Call, pools: (&Pool, &Pool), r: &[u8]) -> bool {
    let Call::Convert { i, c, .. } = call else { return false };
    let o = Out::by_number(r[0]);
    if *c {
        return o != Out::Ok && predicted(spec, i) == Out::Ok;
    }
    if o != predicted(spec, i) {
        return true;
    }
    if o != Out::Ok || !apart(spec, i) {
        return false;
    }
    let cv = &spec.convs[i.conv];
    let (s, _) = call.sides(spec, pools.0, pools.1).unwrap();
    let mut want = call.buffers(r);
    let mut out: Vec<(&mut [u8], usize)> = want.iter_mut().zip(&i.ds.actual).map(|(b, &s)| (&mut b[..], s)).collect();
    cv.expect(spec, i.w, i.h, &views(&s, &i.ss), &mut out);
    let mut at = 1;
    for b in &want {
        if r[at..at + b.len()] != b[..] {
            return true;
        }
        at += b.len();
    }
    false
}

/// The part of a result that must not depend on the past
fn judged(spec: &Spec, call: &Call, r: &[u8]) -> Vec<u8> {
    match call {
        Call::Convert { i, .. } if !apart(spec, i) => vec![r[0]],
        _ => call.visible(spec, r),
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let (src, dst) = (Pool::new(ARENA), Pool::new(ARENA));
    let shared = Shared::new(SLOTS * (4 * ARENA));
    let isas = child_isas();
    let mut rng = Rng::new(a.seed ^ 0x10f6 ^ ((a.shard as u64) << 40));
    let n = 2500;
    let mut reported = 0;
    for round in 0..if a.thorough { 1500 } else { 90 } {
        let isa = isas[(round + a.shard) % isas.len()];
        let mut seq = vec![];
        while seq.len() < 4 {
            seq.push(Call::any(&mut rng, &spec));
        }
        while seq.len() < n {
            // (mostly from what works; now and then, start over)
            let x = if rng.one_in(40) { Call::any(&mut rng, &spec) } else { next(&mut rng, &spec, &seq) };
            if let Call::Convert { i, .. } = &x {
                if i.sl.iter().chain(&i.dl).any(|&l| l > LARGEST) {
                    continue;
                }
            }
            seq.push(x);
        }
        current(format_args!("{{\"isa\":\"{}\",\"round\":{round},\"calls\":{n}}}", isa.name()));
        let seed = rng.next();
        shared.clear(SLOTS);
        let make = |k: usize| {
            seq[k].prepare(&spec, &src, &dst, None);
            seq[k].make(&spec, &src, &dst, seed + k as u64, false)
        };
        let end = in_child(300, || {
            isa.select();
            let mut suspects: Vec<u64> = vec![0];
            for k in 0..n {
                suspects[0] = k as u64;
                let bytes: Vec<u8> = suspects.iter().flat_map(|x| x.to_le_bytes()).collect();
                shared.put(0, SLOTS, &bytes);
                let r = make(k);
                if suspects.len() < SLOTS - 1 && suspicious(&spec, &seq[k], (&src, &dst), &r) {
                    shared.put(suspects.len(), SLOTS, &r);
                    suspects.push(k as u64);
                }
            }
            let bytes: Vec<u8> = suspects.iter().flat_map(|x| x.to_le_bytes()).collect();
            shared.put(0, SLOTS, &bytes);
        });
        rep.evaluations += n as u64;
        let words = shared.get(0, SLOTS).unwrap_or_default();
        let words: Vec<usize> = words.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()) as usize).collect();
        if words.is_empty() {
            continue;
        }
        rep.nontrivial += 1 + words[0] as u64;
        let mut suspects: Vec<(usize, Option<Vec<u8>>)> = words[1..].iter().enumerate().map(|(s, &k)| (k, shared.get(s + 1, SLOTS))).collect();
        if end.is_some() {
            suspects.push((words[0], None));
        }
        rep.count("looked at again", suspects.len() as u64);
        for (k, got) in suspects {
            let after = |past: &[usize]| -> Option<Vec<u8>> {
                shared.clear(SLOTS);
                in_child(150, || {
                    isa.select();
                    for &j in past {
                        make(j);
                    }
                    shared.put(0, SLOTS, &make(k));
                });
                shared.get(0, SLOTS).map(|r| judged(&spec, &seq[k], &r))
            };
            let Some(alone) = after(&[]) else { continue };
            let got = got.map(|g| judged(&spec, &seq[k], &g));
            if got.as_ref() == Some(&alone) {
                continue;
            }
            reported += 1;
            // which single earlier call is enough?
            let one = (0..k).rev().take(600).find(|&j| after(&[j]).as_ref() != Some(&alone));
            let o = got.as_ref().and_then(|g| (0..g.len().min(alone.len())).find(|&o| g[o] != alone[o]));
            rep.violation("the same call had another result after other calls", json!({
                "call": seq[k].json(&spec), "after": one.map(|j| seq[j].json(&spec)), "position": k, "round": round,
                "end": end, "outcomes": [got.as_ref().map(|g| g[0]), Some(alone[0])], "difference at": o}));
            break;
        }
        if reported >= 3 {
            break;
        }
        rep.sample(|| json!({"history": seq.iter().take(3).map(|c| c.json(&spec)).collect::<Vec<_>>()}));
    }
    rep.finish();
}
