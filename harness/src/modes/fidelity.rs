//! Conversions against the real-valued formulas of the specification, in
//! exact arithmetic, and the guarantees about particular colors: greys, black
//! and white, ranges, neutral chroma, and the way there and back.
use super::values::put;
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{Conv, Spec, View};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};
use std::collections::HashMap;

/// base + sum of table[input] / den, for each channel
struct Formula {
    tables: [Vec<i64>; 3],
    base: i64,
    den: i64,
}

pub struct Range {
    y: (i64, i64),
    c: (i64, i64),
    mid: u8,
    black: u8,
    white: u8,
    round_trip: i32,
}

fn product(v: &Value) -> i64 {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).product()
}

fn formula(f: &Value, inputs: &[&str; 3]) -> Formula {
    let terms = f["terms"].as_array().unwrap();
    let gcd = |a: i64, b: i64| { let (mut a, mut b) = (a, b); while b != 0 { (a, b) = (b, a % b); } a };
    let den = terms.iter().map(|t| product(&t["den"])).fold(1, |a, b| a / gcd(a, b) * b);
    let mut tables = [vec![0; 256], vec![0; 256], vec![0; 256]];
    for t in terms {
        let k = inputs.iter().position(|i| t["in"] == *i).unwrap();
        let n = product(&t["num"]) * (den / product(&t["den"]));
        for x in 0..256 {
            tables[k][x as usize] += n * (x - t["off"].as_i64().unwrap());
        }
    }
    Formula { tables, base: f["base"].as_i64().unwrap() * den, den }
}

struct Fid<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
    formulas: HashMap<(u32, String), Formula>,
    ranges: HashMap<u32, Range>,
}

struct At<'a> {
    bytes: &'a [u8],
    stride: usize,
    row0: usize,
    step: usize,
    off: usize,
    sx: u32,
    sy: u32,
}
impl At<'_> {
    fn at(&self, x: usize, y: usize) -> u8 {
        self.bytes[(self.row0 + (y >> self.sy)) * self.stride + (x >> self.sx) * self.step + self.off]
    }
}
fn locate<'a>(d: &crate::model::Desc, v: &[View<'a>], h: usize, name: &str) -> Option<At<'a>> {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            if let Some(off) = a.chan.iter().position(|c| c == name) {
                return Some(At { bytes: v[p].bytes, stride: v[p].stride, row0, step: a.chan.len(), off, sx: a.sx, sy: a.sy });
            }
            row0 += a.rows(h as u64) as usize;
        }
    }
    None
}

const RGB: [&str; 3] = ["r", "g", "b"];
const YUV: [&str; 3] = ["y", "u", "v"];

impl Fid<'_> {
    fn judge(&mut self, c: &Conv, w: usize, h: usize, sv: &[View], dv: &[View]) {
        let fwd = c.group == "rgb2yuv";
        let cs = if fwd { c.dst.cs } else { c.src.cs };
        let (ins, outs) = if fwd { (RGB, YUV) } else { (YUV, RGB) };
        let ia = ins.map(|n| locate(&c.src, sv, h, n).unwrap());
        let oa = outs.map(|n| locate(&c.dst, dv, h, n).unwrap());
        let rg = &self.ranges[&cs];
        let bad = |rep: &mut Report, what: &str, n: &str, x: usize, y: usize, got: u8, input: [u8; 3], want: Value| {
            rep.violation(what, json!({"channel": n, "x": x, "y": y, "got": got, "input": input, "expected": want}));
        };
        for (k, n) in outs.iter().enumerate() {
            let f = &self.formulas[&(cs, n.to_string())];
            let o = &oa[k];
            let (fx, fy) = if fwd { (1usize << o.sx, 1usize << o.sy) } else { (1, 1) };
            let den = f.den * (fx * fy) as i64;
            for j in 0..h / fy {
                for i in 0..w / fx {
                    let mut num = f.base * (fx * fy) as i64;
                    let (mut grey, mut black, mut white) = (true, true, true);
                    for y in 0..fy {
                        for x in 0..fx {
                            let v = [ia[0].at(i * fx + x, j * fy + y), ia[1].at(i * fx + x, j * fy + y), ia[2].at(i * fx + x, j * fy + y)];
                            num += f.tables[0][v[0] as usize] + f.tables[1][v[1] as usize] + f.tables[2][v[2] as usize];
                            grey &= v[0] == v[1] && v[1] == v[2];
                            black &= v == [0, 0, 0];
                            white &= v == [255, 255, 255];
                        }
                    }
                    let got = o.bytes[(o.row0 + j) * o.stride + i * o.step + o.off];
                    let exact = num.clamp(0, 255 * den);
                    let first = || [ia[0].at(i * fx, j * fy), ia[1].at(i * fx, j * fy), ia[2].at(i * fx, j * fy)];
                    if (i64::from(got) * den - exact).abs() > den {
                        bad(&mut self.rep, "a sample is more than one unit away from the formula", n, i, j, got, first(),
                            json!(exact as f64 / den as f64));
                        return;
                    }
                    if fwd {
                        let r = if k == 0 { rg.y } else { rg.c };
                        if i64::from(got) < r.0 || i64::from(got) > r.1 {
                            bad(&mut self.rep, "a sample is outside of its range", n, i, j, got, first(), json!([r.0, r.1]));
                            return;
                        }
                        if grey && k > 0 && got != rg.mid {
                            bad(&mut self.rep, "the chroma of a grey is not neutral", n, i, j, got, first(), json!(rg.mid));
                            return;
                        }
                        if k == 0 && (black && got != rg.black || white && got != rg.white) {
                            bad(&mut self.rep, "black or white has the wrong luma", n, i, j, got, first(), json!([rg.black, rg.white]));
                            return;
                        }
                    }
                }
            }
        }
        if !fwd {
            for j in 0..h {
                for i in 0..w {
                    if ia[1].at(i, j) == rg.mid && ia[2].at(i, j) == rg.mid {
                        let v = [oa[0].at(i, j), oa[1].at(i, j), oa[2].at(i, j)];
                        if v[0] != v[1] || v[1] != v[2] {
                            let (r, y) = (self.rep.violations, ia[0].at(i, j));
                            bad(&mut self.rep, "neutral chroma does not give a grey", "r", i, j, v[0], v, json!(y));
                            if r > 0 { return }
                            return;
                        }
                    }
                }
            }
        }
    }

    fn call(&mut self, c: &Conv, isa: Isa, w: usize, h: usize, s: &Side, d: &Side, phase: &str) -> bool {
        isa.select();
        current(format_args!(
            "{{\"conv\":\"{}\",\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
            self.spec.name(c), isa.name(), s.json(), d.json()));
        let r = convert(w as u32, h as u32, s, d);
        self.rep.evaluations += 1;
        if r != Out::Ok {
            self.rep.violation("a valid conversion was not performed", json!({"outcome": r.name()}));
        }
        r == Out::Ok
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut formulas = HashMap::new();
    for r in spec.raw["reals"].as_array().unwrap() {
        let n = r["chan"].as_str().unwrap();
        let ins = if YUV.contains(&n) { RGB } else { YUV };
        formulas.insert((r["cs"].as_u64().unwrap() as u32, n.to_string()), formula(&r["formula"], &ins));
    }
    let mut ranges = HashMap::new();
    for r in spec.raw["ranges"].as_array().unwrap() {
        let n = |k: &str| r[k].as_i64().unwrap();
        ranges.insert(n("cs") as u32, Range {
            y: (n("y_min"), n("y_max")), c: (n("c_min"), n("c_max")), mid: n("mid") as u8,
            black: n("black") as u8, white: n("white") as u8, round_trip: n("round_trip") as i32,
        });
    }
    let big = 1 << 22;
    let mut f = Fid { spec: &spec, rep: Report::new(), src: Pool::new(big), dst: Pool::new(big), formulas, ranges };
    const ALL: usize = 1 << 24;
    let (w, h) = (1030, 256);
    let per = w * h;
    let mut unit = 0;
    for c in spec.convs.iter().filter(|c| c.group != "rgb2rgb") {
        let sub_src = c.src.planes.iter().flatten().any(|x| x.sx > 0);
        let sub_dst = c.dst.planes.iter().flatten().any(|x| x.sx > 0);
        let mut seedr = Rng::new(a.seed.wrapping_mul(91) ^ c.id as u64);
        let (mul, add) = ((seedr.next() as usize) | 1, seedr.next() as usize);
        let perm = |t: usize| t.wrapping_mul(mul).wrapping_add(add) & (ALL - 1);
        let n = ALL.div_ceil(per);
        // kinds: every triple; blocks of four equal pixels; near greys; anything
        let mut jobs: Vec<(u8, usize)> = vec![];
        let every = if a.thorough || c.id % 5 == a.seed as usize % 5 { n } else { n / 4 };
        jobs.extend((0..every).map(|i| (0, i)));
        if sub_dst {
            jobs.extend((0..if a.thorough { 4 * n } else { n / 8 }).map(|i| (1, i)));
        }
        jobs.extend((0..2).map(|i| (2, i)));
        jobs.extend((0..if a.thorough { 16 } else { 2 }).map(|i| (3, i)));
        for (kind, i) in jobs {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0xf1d ^ ((c.id as u64) << 40) ^ (u64::from(kind) << 32) ^ i as u64);
            let (ss, ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
            let (sl, dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
            let pl = [Place::Mid(64); 4];
            let s = f.src.side(&c.src, &ss, &sl, &pl);
            let d = f.dst.side(&c.dst, &ds, &dl, &pl);
            for b in &s.bufs {
                rng.fill(slice(*b));
            }
            let names: Vec<String> = c.inputs.clone();
            for (k, name) in names.iter().enumerate() {
                let st = &ss.actual;
                match kind {
                    0 if sub_src => {
                        let own = k == 0;
                        put(&c.src, &s.bufs, st, w, h, name, |x, y| {
                            let (bx, by) = if own { (x / 2, y / 2) } else { (x, y) };
                            let t = perm((i * per / 4 + by * (w / 2) + bx) & ((1 << 22) - 1)) & ((1 << 22) - 1);
                            if own { ((t >> 16) | (((y % 2) * 2 + x % 2 + (t >> 5)) & 3) << 6) as u8 } else { (t >> (8 * (k - 1))) as u8 }
                        });
                    }
                    0 => put(&c.src, &s.bufs, st, w, h, name, |x, y| (perm((i * per + y * w + x) & (ALL - 1)) >> (8 * k)) as u8),
                    1 => put(&c.src, &s.bufs, st, w, h, name, |x, y| {
                        (perm((i * per / 4 + (y / 2) * (w / 2) + x / 2) & (ALL - 1)) >> (8 * k)) as u8
                    }),
                    // greys, extremes, neutral chroma: the first image has constant blocks
                    2 => {
                        let yuv = c.group == "yuv2rgb";
                        put(&c.src, &s.bufs, st, w, h, name, |x, y| {
                            if yuv && k > 0 { 128 }
                            else if i == 0 { ((x / 2) ^ (y / 2 * 3)) as u8 }
                            else if (x / 2 + y / 2) % 3 == 0 { 255 } else if (x / 2 + y / 2) % 3 == 1 { 0 } else { (x * 7 + y) as u8 }
                        });
                    }
                    _ => {}
                }
            }
            let (sv, dv) = (views(&s, &ss), views(&d, &ds));
            for &isa in &isas {
                for b in &d.bufs {
                    slice(*b).fill(0xa5);
                }
                if f.call(c, isa, w, h, &s, &d, "formula") {
                    f.judge(c, w, h, &sv, &dv);
                }
                f.rep.nontrivial += per as u64;
            }
        }
    }
    round_trips(&mut f, &isas, a, &mut unit);
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    f.rep.sample(|| t);
    f.rep.finish();
}

/// RGB to 4:4:4 and back, for every color
fn round_trips(f: &mut Fid, isas: &[Isa], a: &Args, unit: &mut usize) {
    let spec = f.spec;
    let mid = Pool::new(1 << 22);
    let (w, h) = (1030, 256);
    let per = w * h;
    const ALL: usize = 1 << 24;
    let full = |d: &crate::model::Desc| d.planes.iter().flatten().all(|x| x.sx == 0);
    for c in spec.convs.iter().filter(|c| c.group == "rgb2yuv" && full(&c.dst)) {
        for b in spec.convs.iter().filter(|b| b.group == "yuv2rgb" && (b.src.pf, b.src.cs) == (c.dst.pf, c.dst.cs)) {
            let n = ALL.div_ceil(per);
            for i in 0..n {
                *unit += 1;
                // quick runs leave three quarters of the colors of a chain to the others
                if *unit % a.shards != a.shard || !a.thorough && (i + c.id + b.id) % 4 != 0 {
                    continue;
                }
                let (s0, s1, s2) = (default_strides(&c.src, w), default_strides(&c.dst, w), default_strides(&b.dst, w));
                let pl = [Place::Mid(64); 4];
                let s = f.src.side(&c.src, &s0, &lens(&c.src, w, h, &s0), &pl);
                let m = mid.side(&c.dst, &s1, &lens(&c.dst, w, h, &s1), &pl);
                let d = f.dst.side(&b.dst, &s2, &lens(&b.dst, w, h, &s2), &pl);
                for (k, name) in RGB.iter().enumerate() {
                    put(&c.src, &s.bufs, &s0.actual, w, h, name, |x, y| (((i * per + y * w + x) & (ALL - 1)) >> (8 * k)) as u8);
                }
                for &isa in isas {
                    for x in m.bufs.iter().chain(&d.bufs) {
                        slice(*x).fill(0xa5);
                    }
                    if !f.call(c, isa, w, h, &s, &m, "there") || !f.call(b, isa, w, h, &m, &d, "and back") {
                        continue;
                    }
                    let tol = f.ranges[&c.dst.cs].round_trip;
                    let (sv, dv) = (views(&s, &s0), views(&d, &s2));
                    'all: for name in RGB {
                        let (x0, x1) = (locate(&c.src, &sv, h, name).unwrap(), locate(&b.dst, &dv, h, name).unwrap());
                        for y in 0..h {
                            for x in 0..w {
                                let (p, q) = (i32::from(x0.at(x, y)), i32::from(x1.at(x, y)));
                                if (p - q).abs() > tol {
                                    let color: Vec<u8> = RGB.iter().map(|n| locate(&c.src, &sv, h, n).unwrap().at(x, y)).collect();
                                    f.rep.violation("a color did not survive the way to 4:4:4 and back", json!({
                                        "channel": name, "color": color, "got": q, "tolerance": tol, "space": spec.spaces[c.dst.cs as usize]}));
                                    break 'all;
                                }
                            }
                        }
                    }
                    f.rep.count("round trips", per as u64);
                }
            }
        }
    }
}
