//! The same call, again and again: the last one of very many must have the
//! result of the first (nothing that the library counts may show).
use crate::calls::{child_isas, in_child, Shared};
use crate::exec::{convert, describe, sizes, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{Conv, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

const SLOTS: usize = 2;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Convert(usize),
    /// (with a destination that is too short)
    Refused(usize),
    Sizes(usize),
    Describe,
    #[cfg(not(feature = "isa"))]
    CConvert(usize),
    #[cfg(not(feature = "isa"))]
    CSizes(usize),
    #[cfg(not(feature = "isa"))]
    CDescribe,
}

/// Two sides, and the bytes of the destination
struct Images {
    s: Side,
    d: Side,
    w: u32,
    h: u32,
}

fn images(rng: &mut Rng, c: &Conv, src: &Pool, dst: &Pool, small: bool) -> Images {
    let (w, h) = if small { (2, 2) } else { (*rng.pick(&[2, 18, 34, 66]), 2) };
    let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
    let pl = [Place::Mid(64); 8];
    let s = src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl[..4]);
    let d = dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl[4..]);
    for b in &s.bufs {
        rng.fill(slice(*b));
    }
    Images { s, d, w: w as u32, h: h as u32 }
}

/// Calls `f` n times, which leaves a result in memory. The number of the first
/// call whose result differs from the first one's
fn same(n: u64, shared: &Shared, mut f: impl FnMut() -> Out, dst: &[(*mut u8, usize)]) {
    let mut first: Option<(Out, Vec<Vec<u8>>)> = None;
    for k in 0..n {
        for b in dst {
            slice(*b).fill(0x77);
        }
        let o = f();
        match &first {
            None => first = Some((o, dst.iter().map(|b| slice(*b).to_vec()).collect())),
            Some((p, v)) => {
                if *p != o || dst.iter().zip(v).any(|(b, v)| slice(*b) != &v[..]) {
                    shared.put(1, SLOTS, &k.to_le_bytes());
                    return;
                }
            }
        }
    }
}

fn make(kind: Kind, spec: &Spec, src: &Pool, dst: &Pool, n: u64, seed: u64, small: bool, shared: &Shared) {
    let mut rng = Rng::new(seed);
    match kind {
        Kind::Convert(k) => {
            let i = images(&mut rng, &spec.convs[k], src, dst, small);
            same(n, shared, || convert(i.w, i.h, &i.s, &i.d), &i.d.bufs);
        }
        Kind::Refused(k) => {
            let mut i = images(&mut rng, &spec.convs[k], src, dst, small);
            let b = rng.below(i.d.bufs.len());
            i.d.bufs[b].1 = 0;
            same(n, shared, || convert(i.w, i.h, &i.s, &i.d), &i.d.bufs);
        }
        Kind::Sizes(k) => {
            let d = &spec.convs[k].dst;
            let mut out = [0_usize; 4];
            let b = [(out.as_mut_ptr().cast::<u8>(), 32)];
            same(n, shared, || sizes(18, 4, d.pf, d.cs, d.np, None, unsafe { std::slice::from_raw_parts_mut(b[0].0.cast(), 4) }), &b);
        }
        Kind::Describe => {
            let mut out = [0_u8; 256];
            let b = [(out.as_mut_ptr(), 256)];
            same(n, shared, || {
                let d = describe();
                let m = d.len().min(255);
                slice(b[0])[..m].copy_from_slice(&d.as_bytes()[..m]);
                Out::Ok
            }, &b);
        }
        #[cfg(not(feature = "isa"))]
        Kind::CConvert(k) => {
            use crate::exec::c;
            let i = images(&mut rng, &spec.convs[k], src, dst, small);
            let desc = |s: &Side| c::CDesc { pf: s.pf, cs: s.cs, np: s.np };
            let (a, b) = (desc(&i.s), desc(&i.d));
            let sb: Vec<*const u8> = i.s.bufs.iter().map(|b| b.0.cast_const()).collect();
            let db: Vec<*mut u8> = i.d.bufs.iter().map(|b| b.0).collect();
            let p = |s: &Side| s.strides.as_ref().map_or(std::ptr::null(), |s| s.as_ptr());
            same(n, shared, || {
                let mut e = c::UNTOUCHED;
                let r = unsafe { c::convert(i.w, i.h, &a, p(&i.s), sb.as_ptr(), &b, p(&i.d), db.as_ptr(), Some(&mut e)) };
                c::outcome(r, Some(e)).0
            }, &i.d.bufs);
        }
        #[cfg(not(feature = "isa"))]
        Kind::CSizes(k) => {
            use crate::exec::c;
            let d = &spec.convs[k].dst;
            let d = c::CDesc { pf: d.pf, cs: d.cs, np: d.np };
            let mut out = [0_usize; 4];
            let b = [(out.as_mut_ptr().cast::<u8>(), 32)];
            same(n, shared, || {
                let mut e = c::UNTOUCHED;
                let r = unsafe { c::sizes(18, 4, &d, std::ptr::null(), b[0].0.cast(), Some(&mut e)) };
                c::outcome(r, Some(e)).0
            }, &b);
        }
        #[cfg(not(feature = "isa"))]
        Kind::CDescribe => {
            use crate::exec::c;
            let mut out = [0_u8; 256];
            let b = [(out.as_mut_ptr(), 256)];
            same(n, shared, || unsafe {
                let p = c::describe();
                if p.is_null() {
                    return Out::Garbage;
                }
                let m = libc::strlen(p).min(255);
                slice(b[0])[..m].copy_from_slice(std::slice::from_raw_parts(p.cast(), m));
                c::unref(p);
                Out::Ok
            }, &b);
        }
    }
}

fn name(kind: Kind, spec: &Spec) -> String {
    match kind {
        Kind::Convert(k) => format!("convert {}", spec.name(&spec.convs[k])),
        Kind::Refused(k) => format!("refuse {}", spec.name(&spec.convs[k])),
        Kind::Sizes(k) => format!("sizes of the destination of {}", spec.name(&spec.convs[k])),
        Kind::Describe => "describe".into(),
        #[cfg(not(feature = "isa"))]
        Kind::CConvert(k) => format!("dcp_convert_image {}", spec.name(&spec.convs[k])),
        #[cfg(not(feature = "isa"))]
        Kind::CSizes(k) => format!("dcp_get_buffers_size of the destination of {}", spec.name(&spec.convs[k])),
        #[cfg(not(feature = "isa"))]
        Kind::CDescribe => "dcp_describe_acceleration, dcp_unref_string".into(),
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let (src, dst) = (Pool::new(1 << 16), Pool::new(1 << 16));
    let shared = Shared::new(1 << 10);
    let mut kinds: Vec<Kind> = vec![Kind::Describe];
    #[cfg(not(feature = "isa"))]
    kinds.push(Kind::CDescribe);
    for k in 0..spec.convs.len() {
        kinds.push(Kind::Convert(k));
        if k % 4 == a.seed as usize % 4 {
            kinds.extend([Kind::Refused(k), Kind::Sizes(k)]);
            #[cfg(not(feature = "isa"))]
            kinds.extend([Kind::CConvert(k), Kind::CSizes(k)]);
        }
    }
    // (what is counted by 16 bits, or at least by 18)
    let short: u64 = (1 << if a.thorough { 21 } else { 18 }) + 300;
    let mut jobs: Vec<(Kind, Isa, u64)> = vec![];
    for &k in &kinds {
        for isa in child_isas() {
            jobs.push((k, isa, short));
        }
    }
    if a.thorough {
        // (by 32 bits)
        let mut rng = Rng::new(a.seed ^ 0x3a7a);
        for isa in child_isas() {
            for _ in 0..8 / child_isas().len() + 1 {
                jobs.push((Kind::Convert(rng.below(spec.convs.len())), isa, (1 << 32) + 300));
            }
        }
    }
    for (u, &(kind, isa, n)) in jobs.iter().enumerate() {
        if u % a.shards != a.shard {
            continue;
        }
        let seed = a.seed ^ 0x3a7 ^ ((u as u64) << 20);
        current(format_args!("{{\"isa\":\"{}\",\"call\":\"{}\",\"times\":{n}}}", isa.name(), name(kind, &spec)));
        shared.clear(SLOTS);
        let long = n > 1 << 30;
        let end = in_child(if long { 1500 } else { 300 }, || {
            isa.select();
            make(kind, &spec, &src, &dst, n, seed, long, &shared);
            shared.put(0, SLOTS, &[1]);
        });
        rep.evaluations += n;
        let differs = shared.get(1, SLOTS).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
        if shared.get(0, SLOTS).is_some() {
            rep.nontrivial += 1;
            rep.count(if long { "calls made 2^32 times" } else { "calls made 2^18 times or more" }, 1);
        }
        let late = end.as_deref() == Some("did not return");
        if late {
            rep.count("not finished in time", 1);
        }
        if differs.is_some() || (end.is_some() && !late) {
            rep.violation("the same call had another result after many of its kind", json!({
                "call": name(kind, &spec), "isa": isa.name(), "number": differs, "end": end}));
        }
        rep.sample(|| json!({"call": name(kind, &spec), "isa": isa.name(), "times": n}));
    }
    rep.finish();
}
