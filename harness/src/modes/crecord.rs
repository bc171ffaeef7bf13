//! Recorded histories of the C interface and of threads.
use super::record::{big, bigs, convert_text, head, side_of, side_text, small, Log, Objects};
use crate::exec::{c, convert, describe, Out, Side};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;
use std::ffi::CStr;
use std::os::raw::c_char;
use std::sync::{Arc, Barrier, Mutex};

pub fn desc_of(s: &Side) -> c::CDesc {
    c::CDesc { pf: s.pf, cs: s.cs, np: s.np }
}

/// The numbers of a C program: the ones its header has
pub fn c_numbers(d: c::CDesc) -> c::CDesc {
    const PF: [&str; 9] = ["argb", "bgra", "bgr", "rgba", "rgb", "i444", "i422", "i420", "nv12"];
    const CS: [&str; 5] = ["rgb", "bt601", "bt709", "bt601fr", "bt709fr"];
    c::CDesc {
        pf: PF.get(d.pf as usize).map_or(d.pf, |n| c::number("format", n) as u32),
        cs: CS.get(d.cs as usize).map_or(d.cs, |n| c::number("space", n) as u32),
        np: d.np,
    }
}

/// Everything a C program passes, lists long enough
pub fn convert_c(w: u32, h: u32, s: &Side, d: &Side) -> (Out, bool) {
    let (sd, dd) = (c_numbers(desc_of(s)), c_numbers(desc_of(d)));
    let pad = |v: &Option<Vec<usize>>| v.as_ref().map(|v| {
        let mut v = v.clone();
        while v.len() < 4 {
            v.push(usize::MAX);
        }
        v
    });
    let (ss, ds) = (pad(&s.strides), pad(&d.strides));
    let sb: Vec<*const u8> = s.bufs.iter().map(|b| b.0.cast_const()).chain([1 as *const u8; 4]).collect();
    let db: Vec<*mut u8> = d.bufs.iter().map(|b| b.0).chain([1 as *mut u8; 4]).collect();
    let mut e = c::UNTOUCHED;
    let r = unsafe {
        c::convert(w, h, &sd, ss.as_ref().map_or(std::ptr::null(), |v| v.as_ptr()), sb.as_ptr(),
                   &dd, ds.as_ref().map_or(std::ptr::null(), |v| v.as_ptr()), db.as_ptr(), Some(&mut e))
    };
    c::outcome(r, Some(e))
}

pub fn sizes_c(w: u32, h: u32, pf: u32, cs: u32, np: u32, strides: Option<&[usize]>, array: &mut [usize]) -> Out {
    let d = c_numbers(c::CDesc { pf, cs, np });
    let mut e = c::UNTOUCHED;
    let r = unsafe {
        c::sizes(w, h, &d, strides.map_or(std::ptr::null(), |v| v.as_ptr()), array.as_mut_ptr(), Some(&mut e))
    };
    c::outcome(r, Some(e)).0
}

pub const ODD: [u32; 14] = [9, 10, 11, 15, 16, 100, 127, 128, 255, 256, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX];
pub const ODD_SPACE: [u32; 13] = [5, 6, 7, 8, 9, 16, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, u32::MAX];

/// C calls with something that must be refused in each: null pointers,
/// unknown numbers, impossible plane counts. Image memory does not exist.
pub fn nonsense(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let mut rng = Rng::new(a.seed ^ 0xc0de ^ ((a.shard as u64) << 40));
    log.head(&head(&["t".into()], &Objects::new(0, &mut rng)));
    let nowhere = crate::mem::phantom(1 << 36);
    let strange = |rng: &mut Rng, known: u32, odd: &[u32]| if rng.one_in(3) { *rng.pick(odd) } else if rng.one_in(8) { rng.next() as u32 } else { known };
    let dim = |rng: &mut Rng| if rng.one_in(2) { rng.below(40) as u32 } else { *rng.pick(&[0, 1, 2, 65536, 1 << 31, u32::MAX - 1, u32::MAX]) };
    let word = |rng: &mut Rng| if rng.one_in(2) { rng.below(4000) } else { *rng.pick(&[0, 1, 1 << 32, usize::MAX / 2, usize::MAX]) };
    for k in 0..n {
        let (w, h) = (dim(&mut rng), dim(&mut rng));
        let use_error = !rng.one_in(4);
        if k % 3 == 0 {
            // size query
            let f = rng.pick(&spec.formats);
            let (np, _) = rng.pick(&f.layouts);
            let mut d = c::CDesc { pf: f.pf, cs: rng.below(5) as u32, np: *np };
            let mut nulls: Vec<&str> = vec![];
            match rng.below(4) {
                0 => d.pf = strange(&mut rng, d.pf, &ODD),
                1 => d.np = rng.other(d.np),
                2 => nulls.push(*rng.pick(&["format", "sizes"])),
                _ => {
                    d.pf = strange(&mut rng, d.pf, &ODD);
                    d.np = rng.below(6) as u32;
                    d.cs = strange(&mut rng, d.cs, &ODD_SPACE);
                    if rng.one_in(4) { nulls.push("format"); }
                    if rng.one_in(4) { nulls.push("sizes"); }
                }
            }
            let strides: Option<Vec<usize>> = if rng.one_in(2) { None } else { Some((0..4).map(|_| word(&mut rng)).collect()) };
            let before: Vec<usize> = (0..6).map(|_| rng.next() as usize).collect();
            let mut array = before.clone();
            let text = format!("{{\"op\":\"sizes\",\"api\":\"c\",\"w\":{},\"h\":{},\"pf\":{},\"cs\":{},\"np\":{},\"given\":{},\"strides\":{},\"array\":{},\"nulls\":{}}}",
                big(w.into()), big(h.into()), num(d.pf), num(d.cs), big(d.np.into()), strides.is_some(),
                bigs(strides.as_deref().unwrap_or(&[])), bigs(&before), json!(nulls));
            current(format_args!("{{\"call\":\"dcp_get_buffers_size\",\"w\":{w},\"h\":{h},\"pf\":{},\"cs\":{},\"np\":{},\"strides\":{},\"nulls\":{},\"error\":{use_error}}}",
                                 d.pf, d.cs, d.np, json!(strides), json!(nulls)));
            let d2 = c_numbers(d);
            let mut e = c::UNTOUCHED;
            let r = unsafe {
                c::sizes(w, h, if nulls.contains(&"format") { std::ptr::null() } else { &d2 },
                         strides.as_ref().map_or(std::ptr::null(), |v| v.as_ptr()),
                         if nulls.contains(&"sizes") { std::ptr::null_mut() } else { array.as_mut_ptr() },
                         if use_error { Some(&mut e) } else { None })
            };
            note(log, rep, &text, r, if use_error { Some(e) } else { None }, &format!(",\"array\":{}", bigs(&array)));
            continue;
        }
        let cv = rng.pick(&spec.convs);
        let mut d = [c::CDesc { pf: cv.src.pf, cs: cv.src.cs, np: cv.src.np }, c::CDesc { pf: cv.dst.pf, cs: cv.dst.cs, np: cv.dst.np }];
        let mut nulls: Vec<&str> = vec![];
        let mut null_planes: [Vec<usize>; 2] = [vec![], vec![]];
        // at least one thing that is refused whatever else there is
        let side = rng.below(2);
        let must = rng.below(5);
        match must {
            0 => nulls.push(*rng.pick(&["src_format", "dst_format", "src_buffers", "dst_buffers"])),
            1 => d[side].pf = *rng.pick(&ODD),
            2 => d[side].cs = *rng.pick(&ODD_SPACE),
            3 => {
                let np = d[side].np;
                let one = cv_layouts(&spec, d[side].pf);
                d[side].np = loop {
                    let x = rng.other(np);
                    if x != np && !one.contains(&x) {
                        break x;
                    }
                };
            }
            _ => null_planes[side].push(1 + rng.below(d[side].np as usize)),
        }
        if rng.one_in(3) {
            let k = rng.below(2);
            match rng.below(4) {
                // (a known format with another number of planes must still miss the null plane)
                0 if must != 4 => d[k].pf = strange(&mut rng, d[k].pf, &ODD),
                1 => d[k].cs = strange(&mut rng, d[k].cs, &ODD_SPACE),
                2 => nulls.push(*rng.pick(&["src_format", "dst_format", "src_buffers", "dst_buffers"])),
                _ => null_planes[k].push(1),
            }
        }
        let st = |rng: &mut Rng| -> Option<Vec<usize>> { if rng.one_in(2) { None } else { Some((0..4).map(|_| word(rng)).collect()) } };
        let strides = [st(&mut rng), st(&mut rng)];
        let at = |k: usize, p: usize| if null_planes[k].contains(&(p + 1)) { std::ptr::null_mut() } else { unsafe { nowhere.add((k * 8 + p) << 30) } };
        let sb: Vec<*const u8> = (0..4).map(|p| at(0, p).cast_const()).collect();
        let db: Vec<*mut u8> = (0..4).map(|p| at(1, p)).collect();
        let side_json = |k: usize| {
            let s = Side { pf: 0, cs: 0, np: d[k].np, strides: strides[k].clone(), bufs: vec![] };
            let lens = vec![usize::MAX >> 1; 4];
            let mut np: Vec<usize> = null_planes[k].clone();
            np.dedup();
            side_text(&s, &[], &np).replacen("\"pf\":0,\"cs\":0", &format!("\"pf\":{},\"cs\":{}", num(d[k].pf), num(d[k].cs)), 1)
                .replacen("\"lens\":[]", &format!("\"lens\":{}", bigs(&lens)), 1)
        };
        nulls.dedup();
        let text = convert_text("c", w, h, &side_json(0), &side_json(1),
                                &nulls.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","));
        current(format_args!("{{\"call\":\"dcp_convert_image\",\"w\":{w},\"h\":{h},\"src\":[{},{},{}],\"dst\":[{},{},{}],\"nulls\":{},\"null_planes\":{},\"strides\":{},\"error\":{use_error}}}",
            d[0].pf, d[0].cs, d[0].np, d[1].pf, d[1].cs, d[1].np, json!(nulls), json!(null_planes), json!(strides)));
        let d2 = [c_numbers(d[0]), c_numbers(d[1])];
        let mut e = c::UNTOUCHED;
        let has = |n: &str| nulls.contains(&n);
        let r = unsafe {
            c::convert(w, h,
                if has("src_format") { std::ptr::null() } else { &d2[0] },
                strides[0].as_ref().map_or(std::ptr::null(), |v| v.as_ptr()),
                if has("src_buffers") { std::ptr::null() } else { sb.as_ptr() },
                if has("dst_format") { std::ptr::null() } else { &d2[1] },
                strides[1].as_ref().map_or(std::ptr::null(), |v| v.as_ptr()),
                if has("dst_buffers") { std::ptr::null() } else { db.as_ptr() },
                if use_error { Some(&mut e) } else { None })
        };
        note(log, rep, &text, r, if use_error { Some(e) } else { None }, "");
    }
}

fn cv_layouts(spec: &crate::model::Spec, pf: u32) -> Vec<u32> {
    spec.formats[pf as usize].layouts.iter().map(|l| l.0).collect()
}

/// TLC's integers have 32 bits and a sign; any unknown number is as good
fn num(n: u32) -> u32 {
    n.min(0x7fff_ffff)
}

fn note(log: &mut Log, rep: &mut Report, text: &str, r: i32, e: Option<i32>, more: &str) {
    let (out, clean) = c::outcome(r, e);
    // without an error location, the kind of the failure is not known
    let out = match (out, e) {
        (Out::Garbage, None) if r != 0 && clean => Out::InvalidValue,
        (o, _) => o,
    };
    log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{text},\"out\":\"{}\"{more}}}", out.name()));
    rep.evaluations += 1;
    rep.nontrivial += 1;
    rep.count(out.name(), 1);
}

unsafe fn read(p: *const c_char) -> String {
    if p.is_null() { "(null)".into() } else { CStr::from_ptr(p).to_string_lossy().into_owned() }
}

fn handle(p: *const c_char) -> String {
    format!("h{:x}", p as usize)
}

/// C strings come and go among other calls
pub fn strings(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    let spec = a.spec();
    let mut rng = Rng::new(a.seed ^ 0x57f ^ ((a.shard as u64) << 40));
    let mut o = Objects::new(7, &mut rng);
    log.head(&head(&["t".into()], &o));
    let mut live: Vec<*mut c_char> = vec![];
    let mut junk: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        current(format_args!("{{\"call\":\"strings\",\"live\":{}}}", live.len()));
        match rng.below(9) {
            0..=2 if live.len() < 12 => {
                let p = c::describe();
                log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{{\"op\":\"c_describe\"}},\"out\":\"ok\",\"handle\":\"{}\",\"text\":{}}}",
                                  handle(p), json!(unsafe { read(p) })));
                live.push(p);
                rep.nontrivial += 1;
            }
            3 | 4 if !live.is_empty() => {
                let p = live.swap_remove(rng.below(live.len()));
                unsafe { c::unref(p) };
                log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{{\"op\":\"c_unref\",\"handle\":\"{}\"}},\"out\":\"ok\"}}", handle(p)));
                // the memory is somebody else's now
                junk.push(vec![b'#'; 24 + rng.below(64)]);
                if junk.len() > 20 {
                    junk.remove(rng.below(20));
                }
            }
            5 => unsafe { c::unref(std::ptr::null_mut()) },
            6 => {
                log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{{\"op\":\"describe\"}},\"out\":\"ok\",\"text\":{}}}", json!(describe())));
            }
            7 => {
                let cv = rng.pick(&spec.convs);
                let m = small(&mut rng, cv, false);
                let (sk, dk): (Vec<usize>, Vec<usize>) = ((0..m.sl.len()).collect(), (3..3 + m.dl.len()).collect());
                let s = side_of(&cv.src, &m.ss, &m.sl, &o, &sk);
                let d = side_of(&cv.dst, &m.ds, &m.dl, &o, &dk);
                let name = |ks: &[usize]| -> Vec<String> { ks.iter().map(|&k| o.names[k].clone()).collect() };
                let call = convert_text("rust", m.w as u32, m.h as u32, &side_text(&s, &name(&sk), &[]), &side_text(&d, &name(&dk), &[]), "");
                let out = convert(m.w as u32, m.h as u32, &s, &d);
                let after = o.changes(0..7);
                log.line(&format!("{{\"e\":\"call\",\"t\":\"t\",\"call\":{call},\"out\":\"{}\",\"after\":{after}}}", out.name()));
            }
            _ => {
                for &p in &live {
                    log.line(&format!("{{\"e\":\"read\",\"handle\":\"{}\",\"text\":{}}}", handle(p), json!(unsafe { read(p) })));
                    rep.nontrivial += 1;
                }
            }
        }
        rep.evaluations += 1;
    }
    for p in live {
        unsafe { c::unref(p) };
    }
}

/// Several threads at once. Sources are shared, destinations are not.
pub fn threads(a: &Args, n: usize, log: &mut Log, rep: &mut Report) {
    const T: usize = 6;
    let spec = Arc::new(a.spec());
    let mut rng = Rng::new(a.seed ^ 0x7412 ^ ((a.shard as u64) << 40));
    // m0..m5 are read by everybody, the rest belongs to one thread each
    let shared = 6;
    let all = Objects::new(shared + 3 * T, &mut rng);
    let names: Vec<String> = (0..T).map(|t| format!("t{t}")).collect();
    // the description is asked for after all threads have met
    let mem = all.mem_text();
    let lines: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let all = Arc::new(Mutex::new(all));
    let barrier = Arc::new(Barrier::new(T));
    let stats = Arc::new(Mutex::new((0u64, 0u64)));
    current(format_args!("{{\"call\":\"threads\",\"seed\":{},\"shard\":{}}}", a.seed, a.shard));
    let hs: Vec<_> = (0..T).map(|t| {
        let (spec, lines, all, barrier, stats) = (spec.clone(), lines.clone(), all.clone(), barrier.clone(), stats.clone());
        let mut rng = Rng::new(rng.next());
        std::thread::spawn(move || {
            let me = format!("t{t}");
            let mut live: Vec<usize> = vec![];
            barrier.wait();
            for _ in 0..n / T {
                match rng.below(10) {
                    0 => {
                        let at = begin(&lines, &me, "{\"op\":\"describe\"}");
                        let text = describe();
                        end(&lines, &me, "ok", &format!(",\"text\":{}", json!(text)), at);
                    }
                    1 if live.len() < 4 => {
                        let at = begin(&lines, &me, "{\"op\":\"c_describe\"}");
                        let p = c::describe();
                        end(&lines, &me, "ok", &format!(",\"handle\":\"{}\",\"text\":{}", handle(p), json!(unsafe { read(p) })), at);
                        live.push(p as usize);
                    }
                    2 if !live.is_empty() => {
                        let p = live.swap_remove(rng.below(live.len())) as *mut c_char;
                        let at = begin(&lines, &me, &format!("{{\"op\":\"c_unref\",\"handle\":\"{}\"}}", handle(p)));
                        unsafe { c::unref(p) };
                        end(&lines, &me, "ok", "", at);
                    }
                    3 if !live.is_empty() => {
                        let p = live[rng.below(live.len())] as *mut c_char;
                        let text = unsafe { read(p) };
                        lines.lock().unwrap().push(format!("{{\"e\":\"read\",\"handle\":\"{}\",\"text\":{}}}", handle(p), json!(text)));
                    }
                    _ => {
                        let cv = rng.pick(&spec.convs);
                        let m = small(&mut rng, cv, false);
                        let sk: Vec<usize> = (0..m.sl.len()).map(|_| rng.below(shared)).collect();
                        let dk: Vec<usize> = (0..m.dl.len()).map(|p| shared + 3 * t + p).collect();
                        let (s, d, st, dt) = {
                            let o = all.lock().unwrap();
                            let s = side_of(&cv.src, &m.ss, &m.sl, &o, &sk);
                            let d = side_of(&cv.dst, &m.ds, &m.dl, &o, &dk);
                            let name = |ks: &[usize]| -> Vec<String> { ks.iter().map(|&k| o.names[k].clone()).collect() };
                            let (st, dt) = (side_text(&s, &name(&sk), &[]), side_text(&d, &name(&dk), &[]));
                            (s, d, st, dt)
                        };
                        let (w, h) = (m.w as u32, m.h as u32);
                        let c_api = rng.one_in(2);
                        let at = begin(&lines, &me, &convert_text(if c_api { "c" } else { "rust" }, w, h, &st, &dt, ""));
                        let out = if c_api { convert_c(w, h, &s, &d).0 } else { convert(w, h, &s, &d) };
                        let after = all.lock().unwrap().changes(dk.iter().copied());
                        end(&lines, &me, out.name(), &format!(",\"after\":{after}"), at);
                        stats.lock().unwrap().1 += 1;
                    }
                }
                stats.lock().unwrap().0 += 1;
            }
        })
    }).collect();
    for h in hs {
        if h.join().is_err() {
            rep.violation("a thread panicked", json!(null));
        }
    }
    let quoted: Vec<String> = names.iter().map(|n| format!("\"{n}\"")).collect();
    log.head(&format!("{{\"threads\":[{}],\"description\":{},\"mem\":{mem}}}", quoted.join(","), json!(describe())));
    for l in lines.lock().unwrap().iter() {
        log.line(l);
    }
    let s = stats.lock().unwrap();
    rep.evaluations += s.0;
    rep.nontrivial += s.1;
}

fn begin(lines: &Mutex<Vec<String>>, me: &str, call: &str) -> usize {
    let mut l = lines.lock().unwrap();
    l.push(format!("{{\"e\":\"begin\",\"t\":\"{me}\",\"call\":{call}}}"));
    l.len()
}

fn end(lines: &Mutex<Vec<String>>, me: &str, out: &str, more: &str, _at: usize) {
    lines.lock().unwrap().push(format!("{{\"e\":\"end\",\"t\":\"{me}\",\"out\":\"{out}\"{more}}}"));
}
