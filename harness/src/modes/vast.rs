//! Packed images of 2^32 pixels (some of 2^31). Only a few rows of them are really there:
//! the address space of the rest repeats these rows, so that what is written
//! there again and again must be the same each time. Some rows in the middle
//! and at the end are on their own.
use super::extreme::{expected, first_difference};
use super::layout::{random, read, write, Image};
use super::values::judged;
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::model::{channels, Conv, Desc, Plane, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use libc::c_void;
use serde_json::json;

/// Rows that repeat
const ROWS: usize = 128;
const PARTS: usize = 3; // what repeats, the middle, the end

/// A plane in address space, and its three parts in memory
struct Vast {
    map: *mut u8,
    len: usize,
    fd: i32,
    parts: [*mut u8; PARTS],
    part: usize,
}

impl Vast {
    fn new(p: &Plane, w: usize, h: usize) -> Vast {
        unsafe {
            let part: usize = p.iter().map(|a| a.row(w as u64) as usize * a.rows(ROWS as u64) as usize).sum();
            let len: usize = p.iter().map(|a| a.row(w as u64) as usize * a.rows(h as u64) as usize).sum();
            let fd = libc::memfd_create(c"vast".as_ptr(), 0);
            assert!(fd >= 0 && libc::ftruncate(fd, (PARTS * part) as i64) == 0, "memfd");
            let map = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE,
                                 libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(map != libc::MAP_FAILED, "mmap of {len}");
            let put = |at: *mut c_void, n: usize, from: usize, how: i32| {
                let m = libc::mmap(at, n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | how, fd, from as i64);
                assert!(m != libc::MAP_FAILED, "mmap of {n} at {from}");
                m.cast::<u8>()
            };
            let parts: [*mut u8; PARTS] = std::array::from_fn(|k| put(std::ptr::null_mut(), part, k * part, 0));
            let (mut at, mut inner) = (0, 0);
            for a in p {
                let n = a.row(w as u64) as usize * a.rows(ROWS as u64) as usize;
                assert!(n % 4096 == 0);
                let times = h / ROWS;
                for k in 0..times {
                    let from = if k == times - 1 { 2 * part } else if k == times / 2 { part } else { 0 };
                    put(map.cast::<u8>().add(at).cast(), n, from + inner, libc::MAP_FIXED);
                    at += n;
                }
                inner += n;
            }
            Vast { map: map.cast(), len, fd, parts, part }
        }
    }
}

impl Drop for Vast {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map.cast(), self.len);
            self.parts.iter().for_each(|p| assert!(libc::munmap(p.cast(), self.part) == 0));
            libc::close(self.fd);
        }
    }
}

fn side(d: &Desc, v: &[Vast]) -> Side {
    Side { pf: d.pf, cs: d.cs, np: d.np, strides: None, bufs: v.iter().map(|v| (v.map, v.len)).collect() }
}

fn part(v: &[Vast], k: usize) -> Vec<(*mut u8, usize)> {
    v.iter().map(|v| (v.parts[k], v.part)).collect()
}

struct V<'a> {
    spec: &'a Spec,
    rep: Report,
    prop: String,
}

impl V<'_> {
    fn case(&mut self, c: &Conv, isas: &[Isa], w: usize, h: usize, rng: &mut Rng) {
        let src: Vec<Vast> = c.src.planes.iter().map(|p| Vast::new(p, w, h)).collect();
        let dst: Vec<Vast> = c.dst.planes.iter().map(|p| Vast::new(p, w, h)).collect();
        let imgs: Vec<Image> = (0..PARTS).map(|_| random(rng, &c.src, w, ROWS)).collect();
        let (ss, ds) = (default_strides(&c.src, w), default_strides(&c.dst, w));
        for (k, img) in imgs.iter().enumerate() {
            write(&c.src, &ss, &part(&src, k), w, ROWS, img);
        }
        let values = matches!(self.prop.as_str(), "C04" | "C05" | "C06" | "C07");
        let want: Vec<Image> = if values { imgs.iter().map(|i| expected(c, self.spec, w, ROWS, i)).collect() } else { vec![] };
        let mut first: Option<Vec<Image>> = None;
        for &isa in isas {
            for k in 0..PARTS {
                for b in part(&dst, k) {
                    slice(b).fill(0xA5);
                }
            }
            let (s, d) = (side(&c.src, &src), side(&c.dst, &dst));
            current(format_args!("{{\"isa\":\"{}\",\"conv\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}",
                                 isa.name(), self.spec.name(c), s.json(), d.json()));
            isa.select();
            self.rep.evaluations += 1;
            self.rep.count(isa.name(), 1);
            let r = convert(w as u32, h as u32, &s, &d);
            // (the next steps take long)
            current(format_args!("{}", crate::report::current_text()));
            if r != Out::Ok {
                self.rep.violation("a valid conversion was not performed", json!({"outcome": r.name()}));
                continue;
            }
            self.rep.nontrivial += 1;
            let got: Vec<Image> = (0..PARTS).map(|k| read(&c.dst, &ds, &part(&dst, k), w, ROWS)).collect();
            let ch = channels(&c.dst);
            let judged: Vec<String> = if values {
                judged(&self.prop, c).iter().map(|&k| ch[k as usize - 1].clone()).collect()
            } else {
                ch
            };
            let only = |i: &Image| -> Image { i.iter().filter(|x| judged.contains(&x.0)).cloned().collect() };
            let (other, what) = if values {
                (Some(&want), "a sample differs from the specification")
            } else {
                (first.as_ref(), "two instruction sets disagree about a sample")
            };
            if let Some(other) = other {
                for k in 0..PARTS {
                    if let Some((ch, i, g, e)) = first_difference(&only(&got[k]), &only(&other[k])) {
                        self.rep.violation(what, json!({"part": (["repeated", "middle", "end"][k]), "channel": ch, "sample": i, "got": g, "expected": e}));
                        break;
                    }
                }
            }
            if first.is_none() {
                first = Some(got);
            }
        }
    }
}

pub fn run(a: &Args) {
    crate::report::slow(700);
    let spec = a.spec();
    let prop = a.get("prop").to_string();
    let isas = isas();
    let mut v = V { spec: &spec, rep: Report::new(), prop: prop.clone() };
    let mut unit = a.seed as usize;
    let cases: Vec<&Conv> = spec.convs.iter().filter(|c| {
        !matches!(prop.as_str(), "C04" | "C05" | "C06" | "C07") || !judged(&prop, c).is_empty()
    }).collect();
    for c in cases {
        unit += 1;
        if unit % a.shards != a.shard {
            continue;
        }
        let mut rng = Rng::new(a.seed ^ 0xea57 ^ ((c.id as u64) << 32));
        // (a quick run mostly leaves the slowest set out)
        let sets: Vec<Isa> = if a.thorough || isas.len() < 3 || (prop == "C08" && unit / a.shards % 8 == 0) {
            isas.clone()
        } else if a.get("sets") == "last" {
            isas[isas.len() - 1..].to_vec()
        } else {
            isas[1..].to_vec()
        };
        let shapes: &[(usize, usize)] = if a.thorough { &[(1 << 16, 1 << 16), (1 << 17, 1 << 15), (1 << 15, 1 << 17)] } else if prop == "C08" && unit / a.shards % 4 != 1 { &[(1 << 16, 1 << 15)] } else { &[(1 << 16, 1 << 16)] };
        for &(w, h) in shapes {
            v.case(c, &sets, w, h, &mut rng);
        }
    }
    v.rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap_or_default());
    v.rep.finish();
}
