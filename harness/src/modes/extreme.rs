//! Images that are very tall or very wide, and rows that are gigabytes apart.
//! The buffers exist in full, but only the pages of the image are ever backed.
use super::layout::{each, random, read, write, Image};
use super::values::judged;
use crate::exec::{convert, isas, sizes, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{channels, Conv, Desc, Spec, View};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

// (6 rows at most, 2^33 + 9000 bytes apart)
const FAR: usize = 1 << 36;
/// Bytes before and after each row that are watched
const WATCH: usize = 48;

struct X<'a> {
    spec: &'a Spec,
    rep: Report,
    prop: String,
    src: Pool,
    dst: Pool,
}

struct Shape {
    w: usize,
    h: usize,
    ss: Strides,
    ds: Strides,
    pl: [Place; 8],
    what: &'static str,
}

fn even(x: usize, is: bool) -> usize {
    if is { x & !1 } else { x }
}

fn far_stride(rng: &mut Rng, rows: usize) -> usize {
    let noise = match rng.below(4) { 0 => 0, 1 => 64 * rng.below(100), _ => rng.below(9000) };
    let over = |limit: usize| limit.div_ceil(rows.max(2) - 1) + noise;
    match rng.below(6) {
        0 => over(1 << 31),
        1 => over(1 << 32),
        2 => (1 << 31) + noise,
        3 => (1 << 32) + noise,
        4 => over(1 << 33),
        _ => (1 << 33) - 64 * rng.below(99),
    }
}

/// One stride (or all) of a side far apart; what an NV12 buffer holds is two areas
fn far_side(rng: &mut Rng, d: &Desc, w: usize, h: usize, which: usize) -> Strides {
    let mut actual = default_strides(d, w).actual;
    for (k, p) in d.planes.iter().enumerate() {
        if which == k || which >= d.planes.len() {
            actual[k] = far_stride(rng, crate::model::total_rows(p, h as u64) as usize);
        }
    }
    Strides { given: Some(actual.clone()), actual }
}

/// The image of a packed conversion by the tables of the specification
pub fn expected(c: &Conv, spec: &Spec, w: usize, h: usize, img: &Image) -> Image {
    let (ss, ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
    let mut s: Vec<Vec<u8>> = lens(&c.src, w, h, &ss).iter().map(|&l| vec![0; l]).collect();
    let mut d: Vec<Vec<u8>> = lens(&c.dst, w, h, &ds).iter().map(|&l| vec![0; l]).collect();
    let sb: Vec<(*mut u8, usize)> = s.iter_mut().map(|b| (b.as_mut_ptr(), b.len())).collect();
    write(&c.src, &ss, &sb, w, h, img);
    let v: Vec<View> = s.iter().zip(&ss.actual).map(|(b, &stride)| View { bytes: b, stride }).collect();
    let mut out: Vec<(&mut [u8], usize)> = d.iter_mut().zip(&ds.actual).map(|(b, &s)| (&mut b[..], s)).collect();
    c.expect(spec, w, h, &v, &mut out);
    let db: Vec<(*mut u8, usize)> = d.iter_mut().map(|b| (b.as_mut_ptr(), b.len())).collect();
    read(&c.dst, &ds, &db, w, h)
}

pub fn first_difference(a: &Image, b: &Image) -> Option<(String, usize, u8, u8)> {
    for (x, y) in a.iter().zip(b) {
        if let Some(i) = (0..x.1.len()).find(|&i| x.1[i] != y.1[i]) {
            return Some((x.0.clone(), i, x.1[i], y.1[i]));
        }
    }
    None
}

/// The bytes around the rows of a side: (plane, offset)
fn margins(d: &Desc, s: &Strides, bufs: &[(*mut u8, usize)], w: usize, h: usize, mut f: impl FnMut(*mut u8)) {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            let row = a.row(w as u64) as usize;
            for j in 0..a.rows(h as u64) as usize {
                let at = (row0 + j) * s.actual[p];
                let gap = (s.actual[p] - row).min(WATCH);
                let before = if j + row0 > 0 { gap } else { 0 };
                for o in at - before..at {
                    f(unsafe { bufs[p].0.add(o) });
                }
                for o in at + row..(at + row + gap).min(bufs[p].1) {
                    f(unsafe { bufs[p].0.add(o) });
                }
            }
            row0 += a.rows(h as u64) as usize;
        }
    }
}

impl X<'_> {
    fn sides(&self, c: &Conv, x: &Shape) -> (Side, Side) {
        let (sl, dl) = match self.prop.as_str() {
            // as long as the size query says
            "C10" => (self.granted(&c.src, x, &x.ss), self.granted(&c.dst, x, &x.ds)),
            _ => (lens(&c.src, x.w, x.h, &x.ss), lens(&c.dst, x.w, x.h, &x.ds)),
        };
        (self.src.side(&c.src, &x.ss, &sl, &x.pl[..4]), self.dst.side(&c.dst, &x.ds, &dl, &x.pl[4..]))
    }
    fn granted(&self, d: &Desc, x: &Shape, s: &Strides) -> Vec<usize> {
        let mut v = vec![0; d.planes.len()];
        sizes(x.w as u32, x.h as u32, d.pf, d.cs, d.np, s.given.as_deref(), &mut v);
        // (what is not even granted is for others to judge; memory is limited)
        v.iter().map(|&l| l.min(FAR)).collect()
    }

    fn convert(&mut self, c: &Conv, isa: Isa, x: &Shape, img: &Image, pre: u8, by_c: bool) -> Option<Image> {
        let (s, d) = self.sides(c, x);
        write(&c.src, &x.ss, &s.bufs, x.w, x.h, img);
        each(&c.dst, &x.ds.actual, x.w, x.h, |_, p, o| unsafe { d.bufs[p].0.add(o).write(pre) });
        let frame = self.prop == "C03";
        if frame {
            margins(&c.dst, &x.ds, &d.bufs, x.w, x.h, |b| unsafe { b.write(!pre) });
        }
        current(format_args!("{{\"isa\":\"{}\",\"conv\":\"{}\",\"c\":{by_c},\"w\":{},\"h\":{},\"src\":{},\"dst\":{},\"shape\":\"{}\"}}",
                             isa.name(), self.spec.name(c), x.w, x.h, s.json(), d.json(), x.what));
        isa.select();
        self.rep.evaluations += 1;
        self.rep.count(x.what, 1);
        #[cfg(not(feature = "isa"))]
        let r = if by_c { super::crecord::convert_c(x.w as u32, x.h as u32, &s, &d).0 } else { convert(x.w as u32, x.h as u32, &s, &d) };
        #[cfg(feature = "isa")]
        let r = convert(x.w as u32, x.h as u32, &s, &d);
        if r != Out::Ok {
            let what = match self.prop.as_str() {
                "C10" => Some("buffers of the queried size were refused"),
                "C19" if r == Out::Panic => Some("the call panicked"),
                "C19" | "C03" => None,
                _ => Some("a valid conversion was not performed"),
            };
            if let Some(what) = what {
                self.rep.violation(what, json!({"outcome": r.name()}));
            }
            return None;
        }
        if frame {
            let mut bad = None;
            margins(&c.dst, &x.ds, &d.bufs, x.w, x.h, |b| unsafe {
                if *b != !pre {
                    let k = (0..d.bufs.len()).find(|&k| (b as usize).wrapping_sub(d.bufs[k].0 as usize) < d.bufs[k].1);
                    bad = bad.or(Some((k, k.map(|k| b as usize - d.bufs[k].0 as usize), *b)));
                }
            });
            if let Some((k, o, v)) = bad {
                self.rep.violation("a byte outside the image was changed", json!({"buffer": k, "offset": o, "got": v, "before": !pre}));
            }
            let mut was = img.clone();
            was.sort();
            if read(&c.src, &x.ss, &s.bufs, x.w, x.h) != was {
                self.rep.violation("a source buffer changed", json!(null));
            }
        }
        Some(read(&c.dst, &x.ds, &d.bufs, x.w, x.h))
    }

    fn case(&mut self, c: &Conv, x: &Shape, isas: &[Isa], rng: &mut Rng) {
        let img = random(rng, &c.src, x.w, x.h);
        let pre = rng.next() as u8;
        let mut first: Option<Image> = None;
        let want = matches!(self.prop.as_str(), "C04" | "C05" | "C06" | "C07").then(|| expected(c, self.spec, x.w, x.h, &img));
        for (n, &isa) in isas.iter().enumerate() {
            let Some(got) = self.convert(c, isa, x, &img, pre, false) else { continue };
            self.rep.nontrivial += 1;
            match self.prop.as_str() {
                "C03" => {
                    if let Some(again) = self.convert(c, isa, x, &img, !pre, false) {
                        if let Some((ch, i, a, b)) = first_difference(&got, &again) {
                            self.rep.violation("a byte of the image was not overwritten", json!({"channel": ch, "sample": i, "got": [a, b]}));
                        }
                    }
                }
                "C04" | "C05" | "C06" | "C07" => {
                    let ch = channels(&c.dst);
                    let judged: Vec<String> = judged(&self.prop, c).iter().map(|&k| ch[k as usize - 1].clone()).collect();
                    let want = want.as_ref().unwrap();
                    let only = |i: &Image| -> Image { i.iter().filter(|x| judged.contains(&x.0)).cloned().collect() };
                    if let Some((ch, i, g, e)) = first_difference(&only(&got), &only(want)) {
                        self.rep.violation("a sample differs from the specification", json!({"channel": ch, "sample": i, "got": g, "expected": e}));
                    }
                }
                "C08" => match &first {
                    None => first = Some(got),
                    Some(f) => {
                        if let Some((ch, i, a, b)) = first_difference(f, &got) {
                            self.rep.violation("two instruction sets disagree about a sample", json!({
                                "sets": [isas[0].name(), isa.name()], "channel": ch, "sample": i, "got": [a, b]}));
                        }
                    }
                },
                "C11" => {
                    if let Some(other) = self.convert(c, isa, x, &img, pre, true) {
                        if let Some((ch, i, a, b)) = first_difference(&got, &other) {
                            self.rep.violation("the interfaces disagree about a sample", json!({"channel": ch, "sample": i, "rust": a, "c": b}));
                        }
                    }
                }
                "C16" => {
                    let plain = Shape { w: x.w, h: x.h, ss: default_strides(&c.src, x.w), ds: default_strides(&c.dst, x.w), pl: x.pl, what: "packed" };
                    if let Some(base) = self.convert(c, isa, &plain, &img, pre, false) {
                        if let Some((ch, i, a, b)) = first_difference(&got, &base) {
                            self.rep.violation("the layout changed a sample of the result", json!({"channel": ch, "sample": i, "got": a, "packed": b}));
                        }
                    }
                }
                _ => {}
            }
            let _ = n;
        }
        for p in [&self.src, &self.dst] {
            p.arenas.iter().for_each(|a| a.forget());
        }
    }
}

fn shapes(c: &Conv, rng: &mut Rng, thorough: bool) -> Vec<Shape> {
    let mut v = vec![];
    let some = |rng: &mut Rng| -> [Place; 8] {
        let mut p = [Place::End; 8];
        for p in &mut p {
            *p = match rng.below(3) { 0 => Place::Start, 1 => Place::End, _ => random_mid(rng) };
        }
        p
    };
    let (ns, nd) = (c.src.planes.len(), c.dst.planes.len());
    for _ in 0..if thorough { 8 } else { 1 } {
        // far rows: each plane alone, and all
        for which in 0..ns + nd + 2 {
            let (w, h) = (even(2 + rng.below(70), c.even_w), even(2 + rng.below(3), c.even_h));
            let (ss, ds) = match which {
                k if k < ns => (far_side(rng, &c.src, w, h, k), random_strides(rng, &c.dst, w, false)),
                k if k < ns + nd => (random_strides(rng, &c.src, w, false), far_side(rng, &c.dst, w, h, k - ns)),
                k if k == ns + nd => (far_side(rng, &c.src, w, h, 9), far_side(rng, &c.dst, w, h, 9)),
                _ => (random_strides(rng, &c.src, w, false), far_side(rng, &c.dst, w, h, 9)),
            };
            v.push(Shape { w, h, ss, ds, pl: some(rng), what: "far rows" });
        }
        for k in 0..2 {
            let w = even(2 + rng.below(10), c.even_w);
            let h = even(if k == 0 { 65536 } else { 32768 } + 2 + rng.below(60), c.even_h);
            let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
            v.push(Shape { w, h, ss, ds, pl: some(rng), what: "tall" });
            let w = even(if k == 0 { 65536 } else { 32768 } + rng.below(140), c.even_w);
            let h = even(2 + rng.below(2), c.even_h);
            let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
            v.push(Shape { w, h, ss, ds, pl: some(rng), what: "wide" });
        }
        // more than 2^16 blocks of any number of columns that vectors are for
        let w = even((if rng.one_in(2) { 1 << 21 } else { 1 << 22 }) + 2 + rng.below(70), c.even_w);
        let h = if c.even_h { 2 } else { 1 };
        let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
        v.push(Shape { w, h, ss, ds, pl: some(rng), what: "very wide" });
        let (w, h) = (2, even((1 << 21) + 2 + rng.below(70), c.even_h));
        let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
        v.push(Shape { w, h, ss, ds, pl: some(rng), what: "very tall" });
    }
    v
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let prop = a.get("prop").to_string();
    let mut x = X { spec: &spec, rep: Report::new(), prop: prop.clone(), src: Pool::new(FAR), dst: Pool::new(FAR) };
    let isas = isas();
    let mut unit = 0;
    for c in &spec.convs {
        if matches!(prop.as_str(), "C04" | "C05" | "C06" | "C07") && judged(&prop, c).is_empty() {
            continue;
        }
        let mut rng = Rng::new(a.seed ^ 0xe87 ^ ((c.id as u64) << 32));
        for s in shapes(c, &mut rng, a.thorough) {
            unit += 1;
            if Rng::new(unit as u64).below(a.shards) == a.shard {
                x.case(c, &s, &isas, &mut rng);
            }
        }
    }
    x.rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap_or_default());
    x.rep.finish();
}
