//! Every call returns: no panic, no fault, no hang, and nothing is wrapped
//! around. Outcomes are of no interest beyond that.
use super::record::{hostile_word, request, DIMS};
use crate::exec::{convert, isas, sizes, Out};
use crate::lay::*;
use crate::mem::{phantom, unmap_sparse, Place};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

fn returned(rep: &mut Report, o: Out) -> bool {
    if o == Out::Panic {
        rep.violation("the call panicked", json!(null));
        return false;
    }
    true
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut rep = Report::new();
    let mut rng = Rng::new(a.seed ^ 0x707a ^ ((a.shard as u64) << 40));
    let (src, dst) = (Pool::new(1 << 21), Pool::new(1 << 21));
    let nowhere = phantom(1 << 40);
    let n = a.num("n", if a.thorough { 4_000_000 } else { 150_000 });
    for _ in 0..n {
        let Some((w, h, s, d, maps)) = request(&spec, &mut rng, &src, &dst, nowhere) else { continue };
        let isa = *rng.pick(&isas);
        isa.select();
        current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}", isa.name(), s.json(), d.json()));
        let o = convert(w, h, &s, &d);
        for (m, l) in maps {
            unmap_sparse(m, l);
        }
        rep.evaluations += 1;
        if returned(&mut rep, o) {
            rep.nontrivial += 1;
            rep.count(o.name(), 1);
        }
        // a stride times the rows that no machine word holds must not be accepted
        if o == Out::Ok && w > 0 && h > 0 {
            for side in [&s, &d] {
                let f = &spec.formats[side.pf as usize];
                let Some((_, planes)) = f.layouts.iter().find(|l| l.0 == side.np) else { continue };
                for (k, p) in planes.iter().enumerate() {
                    let row = u128::from(crate::model::packed(p, w.into()));
                    let st = side.strides.as_ref().and_then(|v| v.get(k)).map_or(row, |&x| if x == 0 { row } else { x as u128 });
                    let rows = u128::from(crate::model::total_rows(p, h.into()));
                    let need = st * rows.saturating_sub(1) + u128::from(p.last().unwrap().row(w.into()));
                    if need > usize::MAX as u128 {
                        rep.violation("a size that cannot be represented was accepted", json!({"plane": k, "needed": need.to_string()}));
                    }
                }
            }
        }
    }
    // valid images of any width at any address
    for _ in 0..n / 2 {
        let c = rng.pick(&spec.convs);
        let w = if rng.one_in(2) { 1 + rng.below(70) } else { 1 + rng.below(400) };
        let w = if c.even_w { (w + 1) & !1 } else { w };
        let h = height(&mut rng, c);
        let (ss, ds) = both_strides(&mut rng, c, w, false);
        let mut pl = [Place::Start; 8];
        for p in &mut pl {
            *p = match rng.below(4) { 0 => Place::Start, 1 => Place::End, _ => random_mid(&mut rng) };
        }
        let s = src.side(&c.src, &ss, &lens(&c.src, w, h, &ss), &pl[..4]);
        let d = dst.side(&c.dst, &ds, &lens(&c.dst, w, h, &ds), &pl[4..]);
        if rng.one_in(3) {
            contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
        }
        let isa = *rng.pick(&isas);
        isa.select();
        current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"places\":\"{pl:?}\"}}",
                             isa.name(), s.json(), d.json()));
        let o = convert(w as u32, h as u32, &s, &d);
        rep.evaluations += 1;
        if returned(&mut rep, o) {
            rep.nontrivial += 1;
            rep.count("valid", 1);
        }
    }
    for _ in 0..2 * n {
        let f = rng.pick(&spec.formats);
        let np = rng.pick(&f.layouts).0;
        let np = if rng.one_in(4) { rng.other(np) } else { np };
        let dim = |rng: &mut Rng| if rng.one_in(2) { *rng.pick(&DIMS) } else { rng.next() as u32 >> rng.below(32) };
        let (w, h) = (dim(&mut rng), dim(&mut rng));
        let strides: Option<Vec<usize>> = if rng.one_in(4) { None } else {
            let n = rng.below(6);
            Some((0..n).map(|_| match rng.below(3) { 0 => 0, 1 => rng.below(9999), _ => hostile_word(&mut rng) }).collect())
        };
        let mut array = vec![0; rng.below(6)];
        current(format_args!("{{\"call\":\"sizes\",\"w\":{w},\"h\":{h},\"pf\":{},\"np\":{np},\"strides\":{},\"slots\":{}}}",
                             f.pf, json!(strides), array.len()));
        let o = sizes(w, h, f.pf, rng.below(5) as u32, np, strides.as_deref(), &mut array);
        rep.evaluations += 1;
        if !returned(&mut rep, o) {
            continue;
        }
        rep.nontrivial += 1;
        rep.count(&format!("sizes {}", o.name()), 1);
        if o != Out::Ok {
            continue;
        }
        let Some((_, planes)) = f.layouts.iter().find(|l| l.0 == np) else { continue };
        for (k, p) in planes.iter().enumerate() {
            let row: u128 = p[0].chan.len() as u128 * u128::from(w >> p[0].sx);
            let st = strides.as_ref().and_then(|v| v.get(k)).map_or(row, |&x| if x == 0 { row } else { x as u128 });
            let rows: u128 = p.iter().map(|a| u128::from(h >> a.sy)).sum();
            if st * rows > usize::MAX as u128 {
                rep.violation("a size that cannot be represented was returned", json!({"plane": k, "true": (st * rows).to_string()}));
                break;
            }
        }
    }
    rep.sample(|| json!({"requests": n, "size queries": 2 * n}));
    rep.finish();
}
