//! Records histories of calls for validation by TLC (DcpTrace.tla).
use crate::exec::{convert, describe, isas, sizes, Isa, Out, Side};
use crate::lay::*;
use crate::mem::{phantom, sparse, unmap_sparse};
use crate::model::{needs, packed, Conv, Desc, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;
use std::fmt::Write as _;
use std::io::Write as _;

/// Digits in base 1024
pub fn big(mut n: u128) -> String {
    let mut s = String::from("[");
    while n > 0 {
        if s.len() > 1 {
            s.push(',');
        }
        let _ = write!(s, "{}", n & 1023);
        n >>= 10;
    }
    s.push(']');
    s
}

pub fn bigs(v: &[usize]) -> String {
    let l: Vec<String> = v.iter().map(|&n| big(n as u128)).collect();
    format!("[{}]", l.join(","))
}

fn strs(v: &[String]) -> String {
    let l: Vec<String> = v.iter().map(|n| format!("\"{n}\"")).collect();
    format!("[{}]", l.join(","))
}

fn bytes(v: &[u8]) -> String {
    let mut s = String::with_capacity(4 * v.len() + 2);
    s.push('[');
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{b}");
    }
    s.push(']');
    s
}

pub fn side_text(s: &Side, bufs: &[String], nulls: &[usize]) -> String {
    let lens: Vec<usize> = s.bufs.iter().map(|b| b.1).collect();
    format!("{{\"pf\":{},\"cs\":{},\"np\":{},\"given\":{},\"strides\":{},\"lens\":{},\"bufs\":{},\"nulls\":{:?}}}",
            s.pf, s.cs, big(s.np.into()), s.strides.is_some(), bigs(s.strides.as_deref().unwrap_or(&[])),
            bigs(&lens), strs(bufs), nulls)
}

pub fn convert_text(api: &str, w: u32, h: u32, s: &str, d: &str, nulls: &str) -> String {
    format!("{{\"op\":\"convert\",\"api\":\"{api}\",\"w\":{},\"h\":{},\"src\":{s},\"dst\":{d},\"nulls\":[{nulls}]}}",
            big(w.into()), big(h.into()))
}

/// The events of a history go to <path>.ev, what was there before to <path>.head
pub struct Log {
    file: std::io::BufWriter<std::fs::File>,
    path: String,
    head: String,
    handles: std::collections::BTreeSet<String>,
    pub lines: u64,
}

impl Log {
    pub fn new(path: &str) -> Log {
        let file = std::io::BufWriter::new(std::fs::File::create(format!("{path}.ev")).unwrap());
        Log { file, path: path.to_string(), head: String::new(), handles: Default::default(), lines: 0 }
    }
    pub fn head(&mut self, s: &str) {
        self.head = s.to_string();
    }
    pub fn line(&mut self, s: &str) {
        const KEY: &str = "\"handle\":\"";
        if let Some(k) = s.find(KEY) {
            let rest = &s[k + KEY.len()..];
            self.handles.insert(rest[..rest.find('"').unwrap()].to_string());
        }
        self.file.write_all(s.as_bytes()).unwrap();
        self.file.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn flush(&mut self) {
        self.file.flush().unwrap();
        let handles: Vec<String> = self.handles.iter().cloned().collect();
        let text = self.head.replacen('{', &format!("{{\"handles\":{},", strs(&handles)), 1);
        std::fs::write(format!("{}.head", self.path), text).unwrap();
    }
}

/// Memory objects the specification knows
pub struct Objects {
    pub names: Vec<String>,
    pub data: Vec<&'static mut [u8]>,
    old: Vec<Vec<u8>>,
}

pub const OBJECT: usize = 640;
const SLACK: usize = 256;

impl Objects {
    pub fn new(n: usize, rng: &mut Rng) -> Objects {
        let mut o = Objects { names: vec![], data: vec![], old: vec![] };
        for k in 0..n {
            let all: &'static mut [u8] = Box::leak(vec![0x77u8; OBJECT + 2 * SLACK].into_boxed_slice());
            let shift = rng.below(64);
            let d = &mut all[SLACK - shift..SLACK - shift + OBJECT];
            rng.fill(d);
            o.names.push(format!("m{k}"));
            o.old.push(d.to_vec());
            o.data.push(d);
        }
        o
    }
    pub fn mem_text(&self) -> String {
        let l: Vec<String> = self.names.iter().zip(&self.data).map(|(n, d)| format!("\"{n}\":{}", bytes(d))).collect();
        format!("{{{}}}", l.join(","))
    }
    /// What changed since the last time, among the objects of `which`
    pub fn changes(&mut self, which: impl Iterator<Item = usize>) -> String {
        let mut l = vec![];
        for k in which {
            if self.old[k] != self.data[k][..] {
                self.old[k].copy_from_slice(self.data[k]);
                l.push(format!("{{\"b\":\"{}\",\"bytes\":{}}}", self.names[k], bytes(self.data[k])));
            }
        }
        format!("[{}]", l.join(","))
    }
    pub fn fill(&mut self, k: usize, rng: &mut Rng) -> String {
        fill(rng, self.data[k]);
        self.old[k].copy_from_slice(self.data[k]);
        format!("{{\"e\":\"fill\",\"b\":\"{}\",\"bytes\":{}}}", self.names[k], bytes(self.data[k]))
    }
}

pub fn head(threads: &[String], o: &Objects) -> String {
    format!("{{\"threads\":{},\"description\":{},\"mem\":{}}}", strs(threads), json!(describe()), o.mem_text())
}

/// A conversion of a small image that fits the objects: sizes, strides, lengths
pub struct Small {
    pub w: usize,
    pub h: usize,
    pub ss: Strides,
    pub ds: Strides,
    pub sl: Vec<usize>,
    pub dl: Vec<usize>,
}

pub fn small(rng: &mut Rng, c: &Conv, overlap: bool) -> Small {
    loop {
        let step = if c.even_w { 2 } else { 1 };
        let w = match rng.below(4) {
            0 => 1 + rng.below(40),
            1 => *rng.pick(&[4, 8, 15, 16, 17, 31, 32, 33, 34, 48, 64, 66]),
            _ => 1 + rng.below(9),
        };
        let w = w.div_ceil(step) * step;
        let h = if c.even_h { *rng.pick(&[2, 2, 4]) } else { *rng.pick(&[1, 1, 2, 3]) };
        let (ss, ds) = (random_strides(rng, &c.src, w, overlap), random_strides(rng, &c.dst, w, overlap));
        let (mut sl, mut dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
        for l in sl.iter_mut().chain(dl.iter_mut()) {
            *l += *rng.pick(&[0, 0, 0, 1, 7, 30]);
        }
        if sl.iter().chain(&dl).all(|&l| l <= OBJECT) {
            return Small { w, h, ss, ds, sl, dl };
        }
    }
}

fn pick_objects(rng: &mut Rng, n: usize, ns: usize, nd: usize) -> (Vec<usize>, Vec<usize>) {
    let mut perm: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        perm.swap(k, rng.below(k + 1));
    }
    let d = perm[..nd].to_vec();
    let rest = &perm[nd..];
    // several planes may be read from the same memory
    let s = if rng.one_in(10) { (0..ns).map(|_| *rng.pick(rest)).collect() } else { rest[..ns].to_vec() };
    (s, d)
}

pub fn side_of(d: &Desc, st: &Strides, lens: &[usize], o: &Objects, which: &[usize]) -> Side {
    Side {
        pf: d.pf, cs: d.cs, np: d.np, strides: st.given.clone(),
        bufs: lens.iter().zip(which).map(|(&l, &k)| (o.data[k].as_ptr().cast_mut(), l)).collect(),
    }
}

pub fn selected<'a>(spec: &'a Spec, a: &Args) -> Vec<&'a Conv> {
    let v: Vec<&Conv> = spec.convs.iter().filter(|c| match a.get("convs") {
        "" | "all" => true,
        "sub" => c.group == "rgb2yuv" && c.even_h,
        g => c.group == g,
    }).collect();
    assert!(!v.is_empty());
    v
}

pub fn run(a: &Args) {
    let mut rep = Report::new();
    let mut log = Log::new(a.get("out"));
    let n = a.num("events", 1000);
    match a.get("kind") {
        "images" => images(a, n, &mut log, &mut rep),
        "isa_pairs" => super::pairs::by_isa(a, n, &mut log, &mut rep),
        "layout_pairs" => super::pairs::by_layout(a, n, &mut log, &mut rep),
        #[cfg(not(feature = "isa"))]
        "interface_pairs" => super::pairs::by_interface(a, n, &mut log, &mut rep),
        "suffice" => super::pairs::suffice(a, n, &mut log, &mut rep),
        "colors" => super::colors::run(a, n, &mut log, &mut rep),
        "requests" => requests(a, n, &mut log, &mut rep),
        "sizes" => size_queries(a, n, &mut log, &mut rep),
        #[cfg(not(feature = "isa"))]
        "c_nonsense" => super::crecord::nonsense(a, n, &mut log, &mut rep),
        #[cfg(not(feature = "isa"))]
        "strings" => super::crecord::strings(a, n, &mut log, &mut rep),
        #[cfg(not(feature = "isa"))]
        "threads" => super::crecord::threads(a, n, &mut log, &mut rep),
        k => panic!("kind {k}"),
    }
    log.flush();
    rep.finish();
}

/// Conversions of small images in shared memory objects
fn images(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let convs = selected(&spec, a);
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0x1a6e ^ ((a.shard as u64) << 40));
    let mut o = Objects::new(9, &mut rng);
    log.head(&head(&["t".into()], &o));
    let mut calls = 0;
    while calls < n {
        if rng.one_in(3) {
            let k = rng.below(o.data.len());
            let l = o.fill(k, &mut rng);
            log.line(&l);
        }
        let c = convs[(calls * a.shards + a.shard + rng.below(3)) % convs.len()];
        let mut m = small(&mut rng, c, false);
        let amiss = rng.below(12);
        let (wk, dk) = pick_objects(&mut rng, o.data.len(), m.sl.len(), m.dl.len());
        if amiss == 0 {
            let k = rng.below(m.sl.len() + m.dl.len());
            let ns = m.sl.len();
            let (l, need) = if k < ns { (&mut m.sl[k], lens(&c.src, m.w, m.h, &m.ss)[k]) }
                            else { (&mut m.dl[k - ns], lens(&c.dst, m.w, m.h, &m.ds)[k - ns]) };
            *l = need - 1 - rng.below(need.min(3));
        }
        let s = side_of(&c.src, &m.ss, &m.sl, &o, &wk);
        let d = side_of(&c.dst, &m.ds, &m.dl, &o, &dk);
        let (w, h) = if amiss == 1 { *rng.pick(&[(0, m.h), (m.w, 0), (0, 0)]) } else { (m.w, m.h) };
        let name = |ks: &[usize]| -> Vec<String> { ks.iter().map(|&k| o.names[k].clone()).collect() };
        let (st, dt) = (side_text(&s, &name(&wk), &[]), side_text(&d, &name(&dk), &[]));
        let isa = *rng.pick(&isas);
        isa.select();
        #[cfg(not(feature = "isa"))]
        let c_api = amiss != 0 && rng.one_in(2);
        #[cfg(feature = "isa")]
        let c_api = false;
        let call = convert_text(if c_api { "c" } else { "rust" }, w as u32, h as u32, &st, &dt, "");
        current(format_args!("{{\"isa\":\"{}\",\"call\":{call}}}", isa.name()));
        let out = if c_api {
            #[cfg(not(feature = "isa"))]
            { super::crecord::convert_c(w as u32, h as u32, &s, &d).0 }
            #[cfg(feature = "isa")]
            Out::Panic
        } else {
            convert(w as u32, h as u32, &s, &d)
        };
        let after = { let n = o.data.len(); o.changes(0..n) };
        log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"isa\":\"{}\",\"call\":{call},\"out\":\"{}\",\"after\":{after}}}",
                          isa.name(), out.name()));
        calls += 1;
        rep.evaluations += 1;
        if out == Out::Ok && w > 0 && h > 0 {
            rep.nontrivial += 1;
        }
        rep.count(out.name(), 1);
    }
}

pub const DIMS: [u32; 22] = [0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 32, 33, 1 << 15, 65535, 65536, 1 << 30, (1 << 31) - 1,
                         1 << 31, (1 << 31) + 2, u32::MAX - 1, u32::MAX];

pub fn hostile_word(rng: &mut Rng) -> usize {
    let base = *rng.pick(&[0usize, 1, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 48, 1 << 61, 1 << 62, 1 << 63,
                           usize::MAX, usize::MAX / 2, usize::MAX / 3, usize::MAX / 4, usize::MAX / 3 * 2]);
    match rng.below(4) {
        0 => base,
        1 => base.wrapping_add(rng.below(70)),
        2 => base.wrapping_sub(rng.below(70)),
        _ => rng.next() as usize >> rng.below(64),
    }
}

/// Requests of every kind, most of them wrong in some way. Only outcomes are
/// of interest.
fn requests(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let isas = isas();
    let mut rng = Rng::new(a.seed ^ 0x4e9 ^ ((a.shard as u64) << 40));
    log.head(&head(&["t".into()], &Objects::new(0, &mut rng)));
    let src = Pool::new(1 << 21);
    let dst = Pool::new(1 << 21);
    let nowhere = phantom(1 << 40);
    for _ in 0..n {
        let r = request(&spec, &mut rng, &src, &dst, nowhere);
        let Some((w, h, s, d, maps)) = r else { continue };
        let isa = *rng.pick(&isas);
        isa.select();
        let call = convert_text("rust", w, h, &side_text(&s, &[], &[]), &side_text(&d, &[], &[]), "");
        current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{}}}", isa.name(), s.json(), d.json()));
        let out = convert(w, h, &s, &d);
        for (m, l) in maps {
            unmap_sparse(m, l);
        }
        log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"isa\":\"{}\",\"call\":{call},\"out\":\"{}\"}}", isa.name(), out.name()));
        rep.evaluations += 1;
        rep.nontrivial += 1;
        rep.count(out.name(), 1);
    }
}

pub type Request = (u32, u32, Side, Side, Vec<(*mut u8, usize)>);

/// Memory is real where the request might be carried out
pub fn request(spec: &Spec, rng: &mut Rng, src: &Pool, dst: &Pool, nowhere: *mut u8) -> Option<Request> {
    let c = &spec.convs[rng.below(spec.convs.len())];
    let large = rng.one_in(3);
    let (w, h) = if large { (*rng.pick(&DIMS), *rng.pick(&DIMS)) }
                 else { (rng.below(36) as u32, rng.below(7) as u32) };
    let (w, h) = if rng.one_in(6) { (w, h) } else {
        (if c.even_w { w & !1 } else { w }, if c.even_h { h & !1 } else { h })
    };
    let area = u64::from(w) * u64::from(h);
    let mut maps = vec![];
    let mut side = |rng: &mut Rng, d: &Desc, pool: &Pool| -> Side {
        let mut np = d.np;
        let mut cs = d.cs;
        let mut pf = d.pf;
        if rng.one_in(14) {
            np = rng.other(np);
        }
        if rng.one_in(14) {
            cs = rng.below(5) as u32;
        }
        if rng.one_in(14) {
            pf = rng.below(9) as u32;
        }
        let np_real = d.planes.len();
        let strides = if rng.one_in(3) { None } else {
            let n = match rng.below(8) { 0 => rng.below(np_real + 1), 1 => np_real + 1 + rng.below(4), _ => np_real };
            Some((0..n).map(|k| {
                let row = d.planes.get(k).map_or(5, |p| packed(p, w.into()) as usize);
                match rng.below(9) {
                    0 => 0,
                    1 => row,
                    2 => row.saturating_sub(1 + rng.below(4)),
                    3 => row / 2,
                    4 | 5 => hostile_word(rng),
                    6 => row + 1,
                    _ => row + rng.below(100),
                }
            }).collect::<Vec<usize>>())
        };
        let nb = match rng.below(12) { 0 => rng.below(np_real + 1), 1 => np_real + 1 + rng.below(3), _ => np_real };
        let bufs = (0..nb).map(|k| {
            let need = match d.planes.get(k) {
                Some(p) if w > 0 && h > 0 => {
                    let st = strides.as_ref().and_then(|s| s.get(k).copied()).unwrap_or(0);
                    let st = if st == 0 { packed(p, w.into()) as usize } else { st };
                    let rows = crate::model::total_rows(p, h.into());
                    if rows == 0 { 1 } else {
                        st as u128 * (u128::from(rows) - 1) + u128::from(p.last().unwrap().row(w.into()))
                    }
                }
                _ => rng.below(100) as u128,
            };
            let wrapped = need as u64 as u128;
            let len = match rng.below(10) {
                0 => need.saturating_sub(1),
                1 => need.saturating_sub(1 + rng.below(64) as u128),
                2 => need + rng.below(64) as u128,
                3 => wrapped,
                4 => rng.below(3000) as u128,
                _ => need,
            };
            // a lot of work is only asked for where it must be refused
            let len = if area > 1 << 16 { len.min(u128::from(w / 3)) } else { len };
            let len = len.min(1 << 37) as usize;
            if len <= 1 << 20 {
                (pool.arenas[k % 4].place(len, crate::mem::Place::Mid(4096 + (1 << 20) * (k / 4) % (1 << 20))), len)
            } else if area <= 1 << 16 {
                match sparse(len.div_ceil(4096) * 4096) {
                    Some(m) => {
                        maps.push((m, len.div_ceil(4096) * 4096));
                        (m, len)
                    }
                    None => (unsafe { nowhere.add(4096) }, 0),
                }
            } else {
                (nowhere, len)
            }
        }).collect();
        Side { pf, cs, np, strides, bufs }
    };
    let s = side(rng, &c.src, src);
    let d = side(rng, &c.dst, dst);
    Some((w, h, s, d, maps))
}

/// The size query, Rust and C
fn size_queries(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let mut rng = Rng::new(a.seed ^ 0x512e ^ ((a.shard as u64) << 40));
    log.head(&head(&["t".into()], &Objects::new(0, &mut rng)));
    for k in 0..n {
        let f = &spec.formats[(k * a.shards + a.shard) % spec.formats.len()];
        let (np, planes) = &f.layouts[rng.below(f.layouts.len())];
        let mut np = *np;
        if rng.one_in(12) {
            np = rng.other(np);
        }
        let dim = |rng: &mut Rng| match rng.below(3) {
            0 => *rng.pick(&DIMS),
            1 => rng.below(50) as u32,
            _ => rng.next() as u32 >> rng.below(32),
        };
        let (w, h) = (dim(&mut rng), dim(&mut rng));
        let (w, h) = if rng.one_in(6) { (w, h) } else {
            (if f.even_w { w & !1 } else { w }, if f.even_h { h & !1 } else { h })
        };
        let strides: Option<Vec<usize>> = if rng.one_in(3) { None } else {
            let n = match rng.below(8) { 0 => rng.below(4), 1 => 3 + rng.below(4), _ => planes.len() };
            Some((0..n).map(|k| {
                let row = planes.get(k).map_or(5, |p| packed(p, w.into()) as usize);
                match rng.below(6) {
                    0 | 1 => 0,
                    2 => row,
                    3 => row + rng.below(100),
                    4 => rng.below(200),
                    _ => hostile_word(&mut rng),
                }
            }).collect())
        };
        #[cfg(not(feature = "isa"))]
        let c_api = rng.one_in(3);
        #[cfg(feature = "isa")]
        let c_api = false;
        let slots = if c_api { 3 + rng.below(3) } else { match rng.below(6) { 0 => rng.below(4), 1 => 3 + rng.below(4), _ => planes.len() } };
        let before: Vec<usize> = (0..slots).map(|_| rng.next() as usize).collect();
        let mut array = before.clone();
        let cs = rng.below(5) as u32;
        // C programs give all strides the planes need
        let strides = if c_api { strides.map(|mut v| { while v.len() < 3 { v.push(rng.below(99)) } v }) } else { strides };
        let call = format!("{{\"op\":\"sizes\",\"api\":\"{}\",\"w\":{},\"h\":{},\"pf\":{},\"cs\":{cs},\"np\":{},\"given\":{},\"strides\":{},\"array\":{},\"nulls\":[]}}",
            if c_api { "c" } else { "rust" }, big(w.into()), big(h.into()), f.pf, big(np.into()), strides.is_some(),
            bigs(strides.as_deref().unwrap_or(&[])), bigs(&before));
        current(format_args!("{{\"call\":\"size query\",\"w\":{w},\"h\":{h},\"pf\":{},\"np\":{np},\"strides\":{},\"slots\":{slots},\"api\":\"{}\"}}",
            f.pf, json!(strides), if c_api { "c" } else { "rust" }));
        let out = if c_api {
            #[cfg(not(feature = "isa"))]
            { super::crecord::sizes_c(w, h, f.pf, cs, np, strides.as_deref(), &mut array) }
            #[cfg(feature = "isa")]
            Out::Panic
        } else {
            sizes(w, h, f.pf, cs, np, strides.as_deref(), &mut array)
        };
        log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{call},\"out\":\"{}\",\"array\":{}}}", out.name(), bigs(&array)));
        rep.evaluations += 1;
        rep.nontrivial += 1;
        rep.count(out.name(), 1);
        let _ = (Isa::Default, needs as fn(&crate::model::Plane, u64, u64, u64) -> u64);
    }
}
