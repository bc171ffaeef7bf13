//! Images that are parts of a larger picture: what surrounds their rows is not
//! theirs, not even to be written with what it holds already. Alone, where it
//! can only be read; and with threads that convert the other parts.
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Arena;
use crate::model::{packed, total_rows, Conv, Desc, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;

const PAGE: usize = 4096;
const ROWS: usize = 20;

fn side(d: &Desc, s: &Strides, bufs: Vec<(*mut u8, usize)>) -> Side {
    Side { pf: d.pf, cs: d.cs, np: d.np, strides: s.given.clone(), bufs }
}

/// Rows at one end of their pages, with pages that can only be read between them
fn edges(a: &Args, spec: &Spec, rep: &mut Report) {
    let isas = isas();
    let pages: Vec<Arena> = (0..3).map(|_| Arena::new(2 * PAGE * ROWS)).collect();
    for p in &pages {
        for k in 0..ROWS {
            unsafe { assert_eq!(libc::mprotect(p.data.add((2 * k + 1) * PAGE).cast(), PAGE, libc::PROT_READ), 0) };
        }
    }
    let src = Pool::new(1 << 18);
    let mut unit = 0;
    for c in &spec.convs {
        for w in widths(c, if a.thorough { 1000 } else { 130 }) {
            unit += 1;
            if unit % a.shards != a.shard || c.dst.planes.iter().any(|p| packed(p, w as u64) as usize > PAGE) {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x7e5 ^ ((c.id as u64) << 32) ^ w as u64);
            let h = height(&mut rng, c);
            let (ss, _) = both_strides(&mut rng, c, w, true);
            let sl = lens(&c.src, w, h, &ss);
            let pl: Vec<_> = (0..4).map(|_| random_mid(&mut rng)).collect();
            let s = src.side(&c.src, &ss, &sl, &pl);
            contents(&mut rng, &c.src, &ss, &s.bufs, w, h);
            let n = c.dst.planes.len();
            let ds = Strides { given: Some(vec![2 * PAGE; n]), actual: vec![2 * PAGE; n] };
            let dl = lens(&c.dst, w, h, &ds);
            for k in 0..if a.thorough { 8 } else { 3 } {
                let bufs = c.dst.planes.iter().enumerate().map(|(p, plane)| {
                    assert!(total_rows(plane, h as u64) as usize <= ROWS);
                    let room = PAGE - packed(plane, w as u64) as usize;
                    let at = match k { 0 => room, 1 => 0, 2 => room & !31, _ => rng.below(room + 1) };
                    (unsafe { pages[p].data.add(at) }, dl[p])
                }).collect();
                let d = side(&c.dst, &ds, bufs);
                for &isa in &isas {
                    current(format_args!("{{\"phase\":\"rows between pages that cannot be written\",\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"at\":\"{:?}\"}}",
                                         isa.name(), s.json(), d.json(), d.bufs));
                    isa.select();
                    rep.evaluations += 1;
                    if convert(w as u32, h as u32, &s, &d) == Out::Ok {
                        rep.nontrivial += 1;
                    }
                }
            }
        }
    }
    rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap_or_default());
}

/// Threads that convert the tiles of one picture into another one
fn threads(a: &Args, spec: &Spec, rep: &mut Report) {
    let isas = isas();
    let (src, dst) = (Pool::new(1 << 20), Pool::new(1 << 20));
    let mut rng = Rng::new(a.seed ^ 0x711e5 ^ ((a.shard as u64) << 40));
    let rounds = if a.thorough { 4000 } else { 600 };
    for round in 0..rounds {
        let c: &Conv = &spec.convs[(round * a.shards + a.shard) % spec.convs.len()];
        let isa: Isa = isas[rng.below(isas.len())];
        let w = if c.even_w { 2 + 2 * rng.below(50) } else { 1 + rng.below(100) };
        let h = height(&mut rng, c);
        let n = 2 + rng.below(7);
        let gap = *rng.pick(&[0, 0, 0, 1, 7]);
        // side by side
        let wide = |d: &Desc| {
            let v: Vec<usize> = d.planes.iter().map(|p| n * (packed(p, w as u64) as usize + gap)).collect();
            Strides { given: Some(v.clone()), actual: v }
        };
        let (ss, ds) = (wide(&c.src), wide(&c.dst));
        let place = |pool: &Pool, d: &Desc, s: &Strides, l: &[usize], t: usize, at: usize| {
            let bufs = d.planes.iter().enumerate().map(|(p, plane)| {
                (unsafe { pool.arenas[p].data.add(at + t * (packed(plane, w as u64) as usize + gap)) }, l[p])
            }).collect();
            side(d, s, bufs)
        };
        let (sl, dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
        let (sa, da) = (1024 + rng.below(64), 1024 + rng.below(64));
        for (p, l) in sl.iter().enumerate() {
            fill(&mut rng, slice((unsafe { src.arenas[p].data.add(sa) }, l + ss.actual[p])));
        }
        let tiles: Vec<(Side, Side)> = (0..n).map(|t| (place(&src, &c.src, &ss, &sl, t, sa), place(&dst, &c.dst, &ds, &dl, t, da))).collect();
        current(format_args!("{{\"phase\":\"tiles\",\"isa\":\"{}\",\"conv\":\"{}\",\"w\":{w},\"h\":{h},\"threads\":{n},\"gap\":{gap},\"src\":{},\"dst\":{}}}",
                             isa.name(), spec.name(c), tiles[0].0.json(), tiles[0].1.json()));
        isa.select();
        // the rows of a tile
        let spans = |t: usize| -> Vec<(*mut u8, usize)> {
            c.dst.planes.iter().enumerate().flat_map(|(p, plane)| {
                let (base, stride) = (tiles[t].1.bufs[p].0, ds.actual[p]);
                let mut row = 0;
                plane.iter().flat_map(|a| {
                    let v: Vec<_> = (0..a.rows(h as u64) as usize).map(|j| unsafe { (base.add((row + j) * stride), a.row(w as u64) as usize) }).collect();
                    row += v.len();
                    v
                }).collect::<Vec<_>>()
            }).collect()
        };
        let alone: Vec<(Out, Vec<Vec<u8>>)> = (0..n).map(|t| {
            let o = convert(w as u32, h as u32, &tiles[t].0, &tiles[t].1);
            (o, spans(t).iter().map(|b| slice(*b).to_vec()).collect())
        }).collect();
        if alone.iter().any(|x| x.0 != Out::Ok) {
            continue;
        }
        let (go, wrong) = (Barrier::new(n), AtomicBool::new(false));
        let bad: Vec<Option<serde_json::Value>> = std::thread::scope(|sc| {
            let ts: Vec<_> = (0..n).map(|t| {
                let spans: Vec<(usize, usize)> = spans(t).iter().map(|b| (b.0 as usize, b.1)).collect();
                let (s, d) = (Tile(tiles[t].0.clone()), Tile(tiles[t].1.clone()));
                let (go, wrong, alone) = (&go, &wrong, &alone);
                sc.spawn(move || {
                    let (s, d) = (s, d);
                    go.wait();
                    for k in 0..400 {
                        if wrong.load(Ordering::Relaxed) {
                            break;
                        }
                        for (x, want) in spans.iter().zip(&alone[t].1) {
                            slice((x.0 as *mut u8, x.1)).iter_mut().zip(want).for_each(|(x, w)| *x = !w);
                        }
                        let o = convert(w as u32, h as u32, &s.0, &d.0);
                        let differ = spans.iter().zip(&alone[t].1).position(|(x, want)| slice((x.0 as *mut u8, x.1)) != &want[..]);
                        if o != Out::Ok || differ.is_some() {
                            wrong.store(true, Ordering::Relaxed);
                            return Some(json!({"tile": t, "repetition": k, "outcome": o.name(), "row": differ}));
                        }
                    }
                    None
                })
            }).collect();
            ts.into_iter().map(|t| t.join().unwrap_or_else(|_| Some(json!("panic")))).collect()
        });
        rep.evaluations += 400 * n as u64;
        rep.nontrivial += n as u64;
        rep.count("pictures in tiles", 1);
        if let Some(b) = bad.into_iter().flatten().next() {
            rep.violation("a tile had another result while threads converted the others", b);
            return;
        }
    }
    rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap_or_default());
}

struct Tile(Side);
unsafe impl Send for Tile {}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    match a.get("prop") {
        "C14" => threads(a, &spec, &mut rep),
        _ => edges(a, &spec, &mut rep),
    }
    rep.finish();
}
