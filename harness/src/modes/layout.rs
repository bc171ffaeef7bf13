//! The same image in any layout converts to the same image in any layout.
use crate::exec::{convert, isas, Isa, Out};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{Conv, Desc, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};

/// An image without its layout: the samples of each channel, row by row
pub type Image = Vec<(String, Vec<u8>)>;

/// Each row of each channel: plane, offset of its first sample, distance of its samples, and their number
pub fn rows(d: &Desc, strides: &[usize], w: usize, h: usize, mut f: impl FnMut(&str, usize, usize, usize, usize)) {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            for (off, c) in a.chan.iter().enumerate() {
                for j in 0..h >> a.sy {
                    f(c, p, (row0 + j) * strides[p] + off, a.chan.len(), w >> a.sx);
                }
            }
            row0 += h >> a.sy;
        }
    }
}

pub fn each(d: &Desc, strides: &[usize], w: usize, h: usize, mut f: impl FnMut(&str, usize, usize)) {
    rows(d, strides, w, h, |c, p, o, step, n| (0..n).for_each(|i| f(c, p, o + i * step)));
}

fn channel(img: &mut Image, c: &str) -> usize {
    img.iter().position(|x| x.0 == c).unwrap_or_else(|| {
        img.push((c.to_string(), vec![]));
        img.len() - 1
    })
}

pub fn read(d: &Desc, s: &Strides, bufs: &[(*mut u8, usize)], w: usize, h: usize) -> Image {
    let mut v: Image = vec![];
    rows(d, &s.actual, w, h, |c, p, o, step, n| {
        let k = channel(&mut v, c);
        v[k].1.extend((0..n).map(|i| unsafe { *bufs[p].0.add(o + i * step) }));
    });
    v.sort();
    v
}

pub fn write(d: &Desc, s: &Strides, bufs: &[(*mut u8, usize)], w: usize, h: usize, img: &Image) {
    let mut at: Vec<usize> = vec![0; img.len()];
    rows(d, &s.actual, w, h, |c, p, o, step, n| {
        let k = img.iter().position(|x| x.0 == c).unwrap();
        for (i, &x) in img[k].1[at[k]..at[k] + n].iter().enumerate() {
            unsafe { *bufs[p].0.add(o + i * step) = x };
        }
        at[k] += n;
    });
}

/// Any image of that format
pub fn random(rng: &mut Rng, d: &Desc, w: usize, h: usize) -> Image {
    let mut img: Image = vec![];
    let s0 = default_strides(d, w);
    rows(d, &s0.actual, w, h, |ch, _, _, _, n| {
        let k = channel(&mut img, ch);
        let at = img[k].1.len();
        img[k].1.resize(at + n, 0);
        rng.fill(&mut img[k].1[at..]);
    });
    if w * h < 1 << 16 && rng.one_in(2) {
        let mut b: Vec<Vec<u8>> = lens(d, w, h, &s0).iter().map(|&l| vec![0; l]).collect();
        let bufs: Vec<(*mut u8, usize)> = b.iter_mut().map(|b| (b.as_mut_ptr(), b.len())).collect();
        paint(rng, d, &s0.actual, &bufs, w, h);
        return read(d, &s0, &bufs, w, h);
    }
    img
}

struct Lay<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
}

impl Lay<'_> {
    fn convert(&mut self, c: &Conv, isa: Isa, w: usize, h: usize, img: &Image, rng: &mut Rng, plain: bool) -> Option<Image> {
        let (ss, ds) = if plain {
            (default_strides(&c.src, w), default_strides(&c.dst, w))
        } else {
            both_strides(rng, c, w, false)
        };
        let (mut sl, mut dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
        let mut pl = [Place::Mid(512); 8];
        if !plain {
            for l in sl.iter_mut().chain(dl.iter_mut()) {
                *l += *rng.pick(&[0, 0, 0, 1, 16, 33, 1000]);
            }
            for p in &mut pl {
                *p = random_mid(rng);
            }
        }
        let mut s = self.src.side(&c.src, &ss, &sl, &pl[..4]);
        let mut d = self.dst.side(&c.dst, &ds, &dl, &pl[4..]);
        if !plain && rng.one_in(3) {
            let who = anyone(rng);
            gather(rng, &self.src, &mut s, &mut d, who, false);
        }
        if !plain && rng.one_in(8) {
            surplus(rng, &self.src, &mut s);
            surplus(rng, &self.dst, &mut d);
        }
        for b in &s.bufs {
            rng.fill(slice(*b));
        }
        for b in &d.bufs {
            rng.fill(slice(*b));
        }
        write(&c.src, &ss, &s.bufs, w, h, img);
        current(format_args!(
            "{{\"conv\":\"{}\",\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"at\":\"{:?} {:?}\"}}",
            self.spec.name(c), isa.name(), s.json(), d.json(), s.bufs, d.bufs));
        isa.select();
        self.rep.evaluations += 1;
        let r = convert(w as u32, h as u32, &s, &d);
        if r != Out::Ok {
            self.rep.violation("a legal layout was refused", json!({"outcome": r.name()}));
            return None;
        }
        Some(read(&c.dst, &ds, &d.bufs, w, h))
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let isas = isas();
    let mut l = Lay { spec: &spec, rep: Report::new(), src: Pool::new(1 << 20), dst: Pool::new(1 << 20) };
    let reps = if a.thorough { 200 } else { 10 };
    let mut unit = 0;
    for c in &spec.convs {
        // conversions that only differ in how the image is split into planes
        let same: Vec<&Conv> = spec.convs.iter().filter(|x| {
            (x.src.pf, x.src.cs, x.dst.pf, x.dst.cs) == (c.src.pf, c.src.cs, c.dst.pf, c.dst.cs)
        }).collect();
        if same[0].id != c.id {
            continue;
        }
        for w in widths(c, if a.thorough { 300 } else { 84 }) {
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let mut rng = Rng::new(a.seed ^ 0x1a70 ^ ((c.id as u64) << 32) ^ w as u64);
            for _ in 0..if w > 260 { 1 } else { 2 } {
                let h = height(&mut rng, c);
                let img = random(&mut rng, &c.src, w, h);
                for &isa in &isas {
                    let Some(base) = l.convert(c, isa, w, h, &img, &mut rng, true) else { continue };
                    for k in 0..reps {
                        let x = same[k % same.len()];
                        let Some(got) = l.convert(x, isa, w, h, &img, &mut rng, k >= same.len() && k != reps - 1) else { continue };
                        l.rep.nontrivial += 1;
                        if got != base {
                            for (g, b) in got.iter().zip(&base) {
                                if let Some(i) = (0..g.1.len()).find(|&i| g.1[i] != b.1[i]) {
                                    l.rep.violation("the layout changed a sample of the result", json!({
                                        "channel": g.0, "sample": i, "got": g.1[i], "packed": b.1[i]}));
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let t: Value = serde_json::from_str(&crate::report::current_text()).unwrap_or_default();
    l.rep.sample(|| t);
    l.rep.finish();
}
