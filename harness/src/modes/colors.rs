//! Records what becomes of colors, for validation by TLC (Facts.tla).
use super::record::Log;
use super::values::put;
use crate::exec::{convert, isas, Out};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{Conv, Desc};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

/// The sample of a channel that belongs to a pixel
fn sample(d: &Desc, bufs: &[(*mut u8, usize)], st: &[usize], h: usize, name: &str, x: usize, y: usize) -> u8 {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            if let Some(off) = a.chan.iter().position(|c| c == name) {
                return slice(bufs[p])[(row0 + (y >> a.sy)) * st[p] + (x >> a.sx) * a.chan.len() + off];
            }
            row0 += a.rows(h as u64) as usize;
        }
    }
    panic!("channel {name}");
}

const RGB: [&str; 3] = ["r", "g", "b"];
const YUV: [&str; 3] = ["y", "u", "v"];

pub fn run(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0xc0108 ^ ((a.shard as u64) << 40));
    let full = |d: &Desc| d.planes.iter().flatten().all(|x| x.sx == 0);
    let (pa, pb, pc) = (Pool::new(1 << 16), Pool::new(1 << 16), Pool::new(1 << 16));
    let there: Vec<&Conv> = spec.convs.iter().filter(|c| c.group == "rgb2yuv").collect();
    let back: Vec<&Conv> = spec.convs.iter().filter(|c| c.group == "yuv2rgb").collect();
    let (w, h) = (36, 2);
    let mut turn = 0;
    while (log.lines as usize) < n {
        turn += 1;
        let first = if turn % 3 == 0 { *rng.pick(&back) } else { *rng.pick(&there) };
        let second = if turn % 3 == 1 && full(&first.dst) {
            let v: Vec<&&Conv> = back.iter().filter(|b| (b.src.pf, b.src.cs, b.src.np) == (first.dst.pf, first.dst.cs, first.dst.np)).collect();
            Some(**rng.pick(&v))
        } else { None };
        let pl = [Place::Mid(64); 4];
        let made = |d: &Desc, p: &Pool| {
            let s = default_strides(d, w);
            (p.side(d, &s, &lens(d, w, h, &s), &pl), s)
        };
        let (s, ss) = made(&first.src, &pa);
        let (m, ms) = made(&first.dst, &pb);
        // edges and greys among the colors
        let kind = rng.below(4);
        let grid: Vec<u8> = vec![0, 1, 2, 15, 16, 17, 127, 128, 129, 234, 235, 236, 239, 240, 241, 253, 254, 255];
        let mut colors = vec![vec![[0u8; 3]; w]; h];
        for row in &mut colors {
            for c in row {
                for v in c.iter_mut() {
                    *v = if kind == 0 { *rng.pick(&grid) } else { rng.next() as u8 };
                }
                if kind == 1 {
                    if first.group == "rgb2yuv" { *c = [c[0]; 3] } else { *c = [c[0], 128, 128] }
                }
                if kind == 2 && rng.one_in(2) {
                    *c = [*rng.pick(&[0, 255]); 3];
                }
            }
        }
        for (k, name) in first.inputs.iter().enumerate() {
            let i = RGB.iter().chain(&YUV).position(|x| x == name).map_or(k, |i| i % 3);
            put(&first.src, &s.bufs, &ss.actual, w, h, name, |x, y| colors[y][x][i]);
        }
        let isa = *rng.pick(&isas);
        isa.select();
        let run = |rep: &mut Report, c: &Conv, a: &crate::exec::Side, b: &crate::exec::Side| {
            current(format_args!("{{\"conv\":\"{}\",\"isa\":\"{}\",\"w\":{w},\"h\":{h}}}", spec.name(c), isa.name()));
            rep.evaluations += 1;
            convert(w as u32, h as u32, a, b) == Out::Ok
        };
        if !run(rep, first, &s, &m) {
            rep.violation("a valid conversion was not performed", json!(null));
            return;
        }
        let fwd = first.group == "rgb2yuv";
        let cs = if fwd { first.dst.cs } else { first.src.cs };
        let (ins, outs) = if fwd { (RGB, YUV) } else { (YUV, RGB) };
        let get = |d: &Desc, s: &crate::exec::Side, st: &Strides, n: &[&str], x: usize, y: usize| -> Vec<u8> {
            n.iter().map(|n| sample(d, &s.bufs, &st.actual, h, n, x, y)).collect()
        };
        let mut fact = |e: &str, from: serde_json::Value, to: Vec<u8>, conv: &Conv, rep: &mut Report| {
            log.line(&json!({"e": e, "cs": cs, "from": from, "to": to, "conv": spec.name(conv), "isa": isa.name()}).to_string());
            rep.nontrivial += 1;
        };
        // one in three of them
        for x in 0..w {
            let y = rng.below(h);
            if !rng.one_in(3) {
                continue;
            }
            let from = get(&first.src, &s, &ss, &ins, x, y);
            if !fwd {
                fact("back", json!(from), get(&first.dst, &m, &ms, &outs, x, y), first, rep);
            } else if full(&first.dst) {
                fact("there", json!(from), get(&first.dst, &m, &ms, &outs, x, y), first, rep);
            } else if first.even_h {
                let (x, y) = (x / 2 * 2, y / 2 * 2);
                let four: Vec<Vec<u8>> = [(0, 0), (1, 0), (0, 1), (1, 1)].iter()
                    .map(|(i, j)| get(&first.src, &s, &ss, &ins, x + i, y + j)).collect();
                fact("mean", json!(four), get(&first.dst, &m, &ms, &["u", "v"], x, y), first, rep);
            }
        }
        if let Some(b) = second {
            let (d, dst) = made(&b.dst, &pc);
            if !run(rep, b, &m, &d) {
                rep.violation("a valid conversion was not performed", json!(null));
                return;
            }
            for x in 0..w {
                let y = rng.below(h);
                if rng.one_in(3) {
                    fact("round", json!(get(&first.src, &s, &ss, &RGB, x, y)), get(&b.dst, &d, &dst, &RGB, x, y), b, rep);
                }
            }
        }
    }
}
