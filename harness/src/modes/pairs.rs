//! Records pairs of calls that must agree, for validation by TLC (Relate.tla),
//! and histories in which buffers have the size the library asks for.
use super::record::{big, bigs, convert_text, head, side_text, small, Log, Objects};
use super::suffice::{ask, legal_strides};
use crate::calls::Call;
use crate::exec::{convert, isas, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{Conv, Desc, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

fn list(v: &[u8]) -> String {
    let l: Vec<String> = v.iter().map(|b| b.to_string()).collect();
    format!("[{}]", l.join(","))
}

fn map(prefix: &str, v: &[Vec<u8>]) -> Vec<String> {
    v.iter().enumerate().map(|(k, b)| format!("\"{prefix}{k}\":{}", list(b))).collect()
}

pub fn contents(s: &Side) -> Vec<Vec<u8>> {
    s.bufs.iter().map(|b| slice(*b).to_vec()).collect()
}

/// One half of a pair
#[allow(clippy::too_many_arguments)]
pub fn half(api: &str, w: usize, h: usize, s: &Side, d: &Side, src: &[Vec<u8>], before: &[Vec<u8>], out: Out, after: &[Vec<u8>]) -> String {
    let names = |p: &str, n: usize| -> Vec<String> { (0..n).map(|k| format!("{p}{k}")).collect() };
    let st = side_text(s, &names("s", s.bufs.len()), &[]);
    let dt = side_text(d, &names("d", d.bufs.len()), &[]);
    let mut mem = map("s", src);
    mem.extend(map("d", before));
    format!("{{\"call\":{},\"mem\":{{{}}},\"out\":\"{}\",\"after\":{{{}}}}}",
            convert_text(api, w as u32, h as u32, &st, &dt, ""), mem.join(","), out.name(), map("d", after).join(","))
}

pub fn pair(log: &mut Log, kind: &str, a: &str, b: &str) {
    log.line(&format!("{{\"kind\":\"{kind}\",\"a\":{a},\"b\":{b}}}"));
}

/// A pair of the results of one call
pub fn call_pair(log: &mut Log, spec: &Spec, c: &Call, pools: (&Pool, &Pool), src: &[Vec<u8>], before: [&[Vec<u8>]; 2], results: [&[u8]; 2]) {
    let Call::Convert { i, .. } = c else { return };
    let (s, d) = c.sides(spec, pools.0, pools.1).unwrap();
    let h = |k: usize| half("rust", i.w, i.h, &s, &d, src, before[k], Out::by_number(results[k][0]), &c.buffers(results[k]));
    pair(log, "args", &h(0), &h(1));
}

/// Two instruction sets
pub fn by_isa(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0x15a2 ^ ((a.shard as u64) << 40));
    let (src, dst) = (Pool::new(1 << 16), Pool::new(1 << 16));
    for k in 0..n {
        let c = &spec.convs[(k * a.shards + a.shard) % spec.convs.len()];
        let mut m = small(&mut rng, c, false);
        if rng.one_in(8) {
            let n = m.sl.len();
            let k = rng.below(n + m.dl.len());
            let l = if k < n { &mut m.sl[k] } else { &mut m.dl[k - n] };
            *l -= 1 + rng.below((*l).min(8));
        }
        let at: Vec<Place> = (0..8).map(|_| random_mid(&mut rng)).collect();
        let mut s = src.side(&c.src, &m.ss, &m.sl, &at[..4]);
        let mut d = dst.side(&c.dst, &m.ds, &m.dl, &at[4..]);
        if rng.one_in(4) {
            let who = crate::lay::anyone(&mut rng);
            gather(&mut rng, &src, &mut s, &mut d, who, true);
        }
        crate::lay::contents(&mut rng, &c.src, &m.ss, &s.bufs, m.w, m.h);
        let before: Vec<Vec<u8>> = d.bufs.iter().map(|b| { let mut v = vec![0; b.1]; rng.fill(&mut v); v }).collect();
        let mut halves = vec![];
        let x = rng.below(isas.len());
        let y = (x + 1 + rng.below(isas.len().max(2) - 1)) % isas.len();
        for isa in [isas[x], isas[y]] {
            for (b, v) in d.bufs.iter().zip(&before) {
                slice(*b).copy_from_slice(v);
            }
            isa.select();
            current(format_args!("{{\"isa\":\"{}\",\"w\":{},\"h\":{},\"src\":{},\"dst\":{}}}", isa.name(), m.w, m.h, s.json(), d.json()));
            let o = convert(m.w as u32, m.h as u32, &s, &d);
            halves.push(half("rust", m.w, m.h, &s, &d, &contents(&s), &before, o, &contents(&d)));
            rep.evaluations += 1;
        }
        pair(log, "call", &halves[0], &halves[1]);
        rep.nontrivial += 1;
    }
}

/// Rust and C
#[cfg(not(feature = "isa"))]
pub fn by_interface(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let mut rng = Rng::new(a.seed ^ 0xca9 ^ ((a.shard as u64) << 40));
    let (src, dst) = (Pool::new(1 << 16), Pool::new(1 << 16));
    for k in 0..n {
        let c = &spec.convs[(k * a.shards + a.shard) % spec.convs.len()];
        let m = small(&mut rng, c, false);
        let at: Vec<Place> = (0..8).map(|_| random_mid(&mut rng)).collect();
        let mut s = src.side(&c.src, &m.ss, &m.sl, &at[..4]);
        let mut d = dst.side(&c.dst, &m.ds, &m.dl, &at[4..]);
        if rng.one_in(4) {
            let who = crate::lay::anyone(&mut rng);
            gather(&mut rng, &src, &mut s, &mut d, who, true);
        }
        match rng.below(10) {
            0 => s.cs = rng.below(5) as u32,
            1 => d.cs = rng.below(5) as u32,
            _ => {}
        }
        let (w, h) = match rng.below(12) { 0 => (0, m.h), 1 => (m.w, 0), _ => (m.w, m.h) };
        crate::lay::contents(&mut rng, &c.src, &m.ss, &s.bufs, m.w, m.h);
        let before: Vec<Vec<u8>> = d.bufs.iter().map(|b| { let mut v = vec![0; b.1]; rng.fill(&mut v); v }).collect();
        let mut halves = vec![];
        for api in ["rust", "c"] {
            for (b, v) in d.bufs.iter().zip(&before) {
                slice(*b).copy_from_slice(v);
            }
            current(format_args!("{{\"api\":\"{api}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}", s.json(), d.json()));
            let o = if api == "c" { super::crecord::convert_c(w as u32, h as u32, &s, &d).0 } else { convert(w as u32, h as u32, &s, &d) };
            halves.push(half("rust", w, h, &s, &d, &contents(&s), &before, o, &contents(&d)));
            rep.evaluations += 1;
        }
        pair(log, "call", &halves[0], &halves[1]);
        rep.nontrivial += 1;
    }
}

/// Two layouts of the same image
pub fn by_layout(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0x1a72 ^ ((a.shard as u64) << 40));
    let (src, dst) = (Pool::new(1 << 16), Pool::new(1 << 16));
    let like = |c: &Conv| -> Vec<usize> {
        spec.convs.iter().filter(|x| (x.src.pf, x.src.cs, x.dst.pf, x.dst.cs) == (c.src.pf, c.src.cs, c.dst.pf, c.dst.cs)).map(|x| x.id).collect()
    };
    let mut done = 0;
    while done < n {
        let c = &spec.convs[(done * a.shards + a.shard) % spec.convs.len()];
        let same = like(c);
        let x = &spec.convs[*rng.pick(&same)];
        let m = small(&mut rng, c, false);
        let image = super::layout::random(&mut rng, &c.src, m.w, m.h);
        let isa = *rng.pick(&isas);
        isa.select();
        let mut halves = vec![];
        for (k, c) in [c, x].into_iter().enumerate() {
            let packed = k == 0 && rng.one_in(2);
            let st = |rng: &mut Rng, d: &Desc| if packed { default_strides(d, m.w) } else { random_strides(rng, d, m.w, false) };
            let (ss, ds) = (st(&mut rng, &c.src), st(&mut rng, &c.dst));
            let (mut sl, mut dl) = (lens(&c.src, m.w, m.h, &ss), lens(&c.dst, m.w, m.h, &ds));
            for l in sl.iter_mut().chain(dl.iter_mut()) {
                *l += *rng.pick(&[0, 0, 1, 16, 33]);
            }
            let at: Vec<Place> = (0..8).map(|_| random_mid(&mut rng)).collect();
            let mut s = src.side(&c.src, &ss, &sl, &at[..4]);
            let mut d = dst.side(&c.dst, &ds, &dl, &at[4..]);
            if rng.one_in(3) {
                let who = crate::lay::anyone(&mut rng);
                gather(&mut rng, &src, &mut s, &mut d, who, false);
            }
            for b in s.bufs.iter().chain(&d.bufs) {
                rng.fill(slice(*b));
            }
            super::layout::write(&c.src, &ss, &s.bufs, m.w, m.h, &image);
            let before = contents(&d);
            current(format_args!("{{\"isa\":\"{}\",\"w\":{},\"h\":{},\"src\":{},\"dst\":{}}}", isa.name(), m.w, m.h, s.json(), d.json()));
            let o = convert(m.w as u32, m.h as u32, &s, &d);
            halves.push(half("rust", m.w, m.h, &s, &d, &contents(&s), &before, o, &contents(&d)));
            rep.evaluations += 1;
        }
        pair(log, "image", &halves[0], &halves[1]);
        rep.nontrivial += 1;
        done += 1;
    }
}

/// Size queries, and conversions with buffers of just these sizes
pub fn suffice(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0x5ff ^ ((a.shard as u64) << 40));
    log.head(&head(&["t".into()], &Objects::new(0, &mut rng)));
    let (src, dst) = (Pool::new(1 << 21), Pool::new(1 << 21));
    let mut done = 0;
    while done < n {
        let c = &spec.convs[(done * a.shards + a.shard) % spec.convs.len()];
        let w = *rng.pick(&widths(c, 60));
        let h = if rng.one_in(20) { 30 } else { height(&mut rng, c) };
        let (ss, ds) = (legal_strides(&mut rng, &c.src, w), legal_strides(&mut rng, &c.dst, w));
        let mut lens: Vec<Option<Vec<usize>>> = vec![];
        for (d, s) in [(&c.src, &ss), (&c.dst, &ds)] {
            current(format_args!("{{\"conv\":\"{}\",\"w\":{w},\"h\":{h},\"strides\":{}}}", spec.name(c), json!(s.given)));
            let l = ask(&mut rng, w, h, d, s);
            let array = l.clone().unwrap_or_default();
            let before = vec![7; array.len()];
            log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{{\"op\":\"sizes\",\"api\":\"rust\",\"w\":{},\"h\":{},\"pf\":{},\"cs\":{},\"np\":{},\"given\":{},\"strides\":{},\"array\":{},\"nulls\":[]}},\"out\":\"{}\",\"array\":{}}}",
                big(w as u128), big(h as u128), d.pf, d.cs, big(d.np.into()), s.given.is_some(),
                bigs(s.given.as_deref().unwrap_or(&[])), bigs(&before), if l.is_some() { "ok" } else { "invalid_value" }, bigs(&array)));
            lens.push(l);
        }
        done += 1;
        let (Some(sl), Some(dl)) = (&lens[0], &lens[1]) else { continue };
        if sl.iter().chain(dl).any(|&l| l > 2_000_000) {
            rep.count("too large", 1);
            continue;
        }
        let s = src.side(&c.src, &ss, sl, &[Place::Mid(4096); 4]);
        let d = dst.side(&c.dst, &ds, dl, &[Place::Mid(4096); 4]);
        let isa = *rng.pick(&isas);
        isa.select();
        current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}", isa.name(), s.json(), d.json()));
        // the source is only read
        let o = if fits(c, w, h, &ss, &ds, sl, dl) { convert(w as u32, h as u32, &s, &d) } else { Out::NotEnoughData };
        log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{},\"out\":\"{}\"}}",
                          convert_text("rust", w as u32, h as u32, &side_text(&s, &[], &[]), &side_text(&d, &[], &[]), ""), o.name()));
        rep.evaluations += 3;
        rep.nontrivial += 1;
    }
}

/// (a query that promises too little would only crash the recording)
fn fits(c: &Conv, w: usize, h: usize, ss: &Strides, ds: &Strides, sl: &[usize], dl: &[usize]) -> bool {
    lens(&c.src, w, h, ss).iter().zip(sl).chain(lens(&c.dst, w, h, ds).iter().zip(dl)).all(|(n, l)| l >= n)
}
