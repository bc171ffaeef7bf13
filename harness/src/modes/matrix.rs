//! Every combination of what can be enumerated: formats, color spaces, numbers
//! of planes, parities of sizes, missing lists, buffers that just suffice and
//! that just do not. What is expected is looked up in tables the specification
//! exports.
use crate::exec::{convert, isas, sizes, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{needs, packed, total_rows, Desc, Plane, Spec};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

/// Numbers of planes: all small ones and those a narrower count would confuse
/// with them
fn counts(rng: &mut Rng, all: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..6).collect();
    if all {
        for k in 0..4u32 {
            v.extend((0..32).map(|b| k ^ (1 << b)));
            v.extend([k.wrapping_neg(), 255 - k, 65535 - k, 256 * 3 + k, 65536 * 5 + k, (1 << 31) + k]);
        }
        v.extend((0..40).map(|_| { let n = rng.below(4) as u32; rng.other(n) }));
    } else {
        v.extend([256, 257, 258, 259, 65537, 65538, 65539, (1 << 31) + 1, (1 << 31) + 3, u32::MAX, u32::MAX - 2]);
        v.extend((0..4).map(|_| { let n = rng.below(4) as u32; rng.other(n) }));
    }
    v.sort_unstable();
    v.dedup();
    v
}

struct Matrix<'a> {
    spec: &'a Spec,
    rep: Report,
    src: Pool,
    dst: Pool,
}

#[derive(Clone, Copy)]
struct D {
    pf: u32,
    cs: u32,
    np: u32,
}

/// What of the data is missing
const DATA: [&str; 4] = ["ample", "no buffer", "no stride", "empty buffers"];

impl Matrix<'_> {
    fn side(pool: &Pool, d: D, data: usize) -> Side {
        let n = if data == 1 { 0 } else { 4 };
        let len = if data == 3 { 0 } else { 2048 };
        Side {
            pf: d.pf, cs: d.cs, np: d.np,
            strides: if data == 2 { Some(vec![]) } else { None },
            bufs: (0..n).map(|k| (pool.arenas[k].place(len, Place::Mid(512)), len)).collect(),
        }
    }

    fn expected(&self, s: D, d: D, w: u32, h: u32, data: (usize, usize)) -> Out {
        if !self.spec.describes(s.pf, s.cs, s.np, w, h) || !self.spec.describes(d.pf, d.cs, d.np, w, h) {
            Out::InvalidValue
        } else if !self.spec.pairs.contains(&(s.pf, d.pf)) {
            Out::InvalidOperation
        } else if w == 0 || h == 0 {
            Out::Ok
        } else if data != (0, 0) {
            Out::NotEnoughData
        } else {
            Out::Ok
        }
    }

    fn judge(&mut self, isa: Isa, w: u32, h: u32, s: &Side, d: &Side, want: Out, phase: &str) {
        current(format_args!("{{\"isa\":\"{}\",\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"{phase}\"}}",
                             isa.name(), s.json(), d.json()));
        let got = convert(w, h, s, d);
        self.rep.evaluations += 1;
        if got != want {
            self.rep.violation("the outcome is not the documented one", json!({"outcome": got.name(), "expected": want.name()}));
        }
    }

    /// All pairs of descriptions
    fn descriptions(&mut self, a: &Args, isa: Isa, rng: &mut Rng) {
        let some = counts(rng, false);
        let every = counts(rng, true);
        let sizes = [(4, 4), (5, 4), (4, 5), (5, 5), (0, 4), (4, 0), (0, 0), (0, 5), (5, 0)];
        let mut unit = 0;
        isa.select();
        for pf in 0..self.spec.formats.len() as u32 {
            for cs in 0..self.spec.spaces.len() as u32 {
                unit += 1;
                if unit % a.shards != a.shard {
                    continue;
                }
                for pf2 in 0..self.spec.formats.len() as u32 {
                    for cs2 in 0..self.spec.spaces.len() as u32 {
                        // both counts vary; one of them over many values
                        let right = |pf: u32| self.spec.formats[pf as usize].layouts.iter().map(|l| l.0).collect::<Vec<_>>();
                        let mut pairs: Vec<(u32, u32)> = vec![];
                        for &x in &some {
                            pairs.extend(some.iter().map(|&y| (x, y)));
                        }
                        for &x in &every {
                            pairs.extend(right(pf2).iter().map(|&y| (x, y)));
                            pairs.extend(right(pf).iter().map(|&y| (y, x)));
                        }
                        for (np, np2) in pairs {
                            let (s, d) = (D { pf, cs, np }, D { pf: pf2, cs: cs2, np: np2 });
                            for (w, h) in sizes {
                                let data = if rng.one_in(4) { (rng.below(4), rng.below(4)) } else { (0, 0) };
                                let want = self.expected(s, d, w, h, data);
                                let (ss, ds) = (Self::side(&self.src, s, data.0), Self::side(&self.dst, d, data.1));
                                self.judge(isa, w, h, &ss, &ds, want, "descriptions");
                            }
                        }
                        self.rep.nontrivial += 1;
                    }
                }
            }
        }
    }

    /// Supported conversions, with every list one entry short and every
    /// buffer just long enough and not
    fn edges(&mut self, a: &Args, isa: Isa, rng: &mut Rng) {
        let spec = self.spec;
        isa.select();
        for c in &spec.convs {
            if c.id % a.shards != a.shard {
                continue;
            }
            let (ex, ey) = (if c.even_w { 2 } else { 1 }, if c.even_h { 2 } else { 1 });
            for wi in 1..=if a.thorough { 24 } else { 9 } {
                for hi in 1..=if a.thorough { 12 } else { 6 } {
                    let (w, h) = (wi * ex, hi * ey);
                    let w = if rng.one_in(5) { w + 16 * rng.below(9) } else { w };
                    for side in 0..2 {
                        let d = if side == 0 { &c.src } else { &c.dst };
                        for k in 0..d.planes.len() {
                            self.edge(isa, c, w, h, side, k, rng);
                        }
                        // lists
                        for n in 0..d.planes.len() + 3 {
                            for what in 0..2 {
                                let (mut s, mut t) = (roomy(&self.src, &c.src, w, h), roomy(&self.dst, &c.dst, w, h));
                                let x = if side == 0 { &mut s } else { &mut t };
                                if what == 0 {
                                    x.strides = Some(vec![0; n]);
                                } else {
                                    while x.bufs.len() < n {
                                        x.bufs.push((x.bufs[0].0, 0));
                                    }
                                    x.bufs.truncate(n);
                                }
                                let want = if n < d.planes.len() { Out::NotEnoughData } else { Out::Ok };
                                self.judge(isa, w as u32, h as u32, &s, &t, want, "lists");
                            }
                        }
                    }
                }
            }
            self.rep.nontrivial += 1;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn edge(&mut self, isa: Isa, c: &crate::model::Conv, w: usize, h: usize, side: usize, k: usize, rng: &mut Rng) {
        let d = if side == 0 { &c.src } else { &c.dst };
        let p = &d.planes[k];
        let row = packed(p, w as u64) as usize;
        let mut strides = vec![None, Some(0), Some(row), Some(row + 1), Some(row + 1 + rng.below(50)), Some(1), Some(row.max(2) - 1),
                               Some(row.div_ceil(2)), Some(row.div_ceil(32) * 32)];
        strides.push(Some(1 + rng.below(row)));
        for st in strides {
            let need = shortest(p, w, h, st.unwrap_or(0));
            for delta in [-1i64, 0, 1] {
                let (mut s, mut t) = (roomy(&self.src, &c.src, w, h), roomy(&self.dst, &c.dst, w, h));
                let x = if side == 0 { &mut s } else { &mut t };
                if let Some(st) = st {
                    let mut v: Vec<usize> = d.planes.iter().map(|p| packed(p, w as u64) as usize).collect();
                    v[k] = st;
                    x.strides = Some(v);
                }
                let (len, want) = match need {
                    None => ((4000 + delta) as usize, Out::NotEnoughData),
                    Some(n) => ((n as i64 + delta) as usize, if delta < 0 { Out::NotEnoughData } else { Out::Ok }),
                };
                x.bufs[k].1 = len;
                self.judge(isa, w as u32, h as u32, &s, &t, want, "edges");
            }
        }
    }

    /// Size queries: formats, plane counts, parities, short arrays, empty images
    fn queries(&mut self, a: &Args, rng: &mut Rng) {
        let every = counts(rng, true);
        let spec = self.spec;
        for f in &spec.formats {
            for cs in 0..spec.spaces.len() as u32 {
                if (f.pf as usize * 5 + cs as usize) % a.shards != a.shard {
                    continue;
                }
                for &np in &every {
                    let layout = f.layouts.iter().find(|l| l.0 == np).map(|l| &l.1);
                    for (w, h) in [(4u32, 4u32), (5, 4), (4, 5), (5, 5), (0, 4), (4, 0), (0, 0), (0, 5), (5, 0), (2, 2), (1, 1), (640, 480)] {
                        for given in 0..5 {
                            for slots in 0..5 {
                                self.query(f, cs, np, layout, w, h, given, slots, rng);
                            }
                        }
                    }
                }
                self.rep.nontrivial += 1;
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn query(&mut self, f: &crate::model::Format, cs: u32, np: u32, layout: Option<&Vec<Plane>>, w: u32, h: u32, given: usize, slots: usize, rng: &mut Rng) {
        let strides: Option<Vec<usize>> = (given < 4).then(|| (0..given).map(|_| match rng.below(4) { 0 => 0, 1 => 1 + rng.below(9), _ => rng.below(5000) }).collect());
        let before: Vec<usize> = (0..slots).map(|_| rng.next() as usize).collect();
        let mut array = before.clone();
        current(format_args!("{{\"call\":\"sizes\",\"w\":{w},\"h\":{h},\"pf\":{},\"cs\":{cs},\"np\":{np},\"strides\":{},\"slots\":{slots}}}",
                             f.pf, json!(strides)));
        let got = sizes(w, h, f.pf, cs, np, strides.as_deref(), &mut array);
        let mut want_array = before;
        let bad_size = f.even_w && w % 2 == 1 || f.even_h && h % 2 == 1;
        let want = match layout {
            None => Out::InvalidValue,
            _ if bad_size => Out::InvalidValue,
            Some(l) if slots < l.len() || strides.as_ref().is_some_and(|s| s.len() < l.len()) => Out::NotEnoughData,
            Some(l) => {
                for (k, p) in l.iter().enumerate() {
                    let st = match &strides { Some(s) if s[k] != 0 => s[k] as u64, _ => packed(p, w.into()) };
                    want_array[k] = (st * total_rows(p, h.into())) as usize;
                }
                Out::Ok
            }
        };
        self.rep.evaluations += 1;
        if got != want {
            self.rep.violation("the outcome is not the documented one", json!({"outcome": got.name(), "expected": want.name()}));
        } else if array != want_array {
            self.rep.violation("the sizes are not the ones of the planes", json!({"got": array, "expected": want_array}));
        }
    }
}

fn roomy(pool: &Pool, d: &Desc, w: usize, h: usize) -> Side {
    let ls = lens(d, w, h, &default_strides(d, w));
    Side {
        pf: d.pf, cs: d.cs, np: d.np, strides: None,
        bufs: ls.iter().enumerate().map(|(k, &l)| (pool.arenas[k].place(l + 64, Place::Mid(4096)), l + 64)).collect(),
    }
}

/// The length of the shortest buffer that holds the plane, if one does
fn shortest(p: &Plane, w: usize, h: usize, stride: usize) -> Option<usize> {
    let st = if stride == 0 { packed(p, w as u64) } else { stride as u64 };
    let (w, h) = (w as u64, h as u64);
    let mut before = 0;
    for (n, a) in p.iter().enumerate() {
        let end = st * (before + a.rows(h) - 1) + a.row(w);
        before += a.rows(h);
        if n + 1 < p.len() && end > st * before {
            return None;
        }
    }
    Some(needs(p, w, h, st) as usize)
}

#[cfg(not(feature = "isa"))]
mod c_side {
    use super::*;
    use crate::exec::c::{self, CDesc};
    use crate::modes::crecord::{c_numbers, convert_c, sizes_c, ODD, ODD_SPACE};
    use std::ptr::null;

    impl Matrix<'_> {
        /// Both interfaces on all pairs of descriptions
        pub fn interfaces(&mut self, a: &Args, rng: &mut Rng) {
            let some = counts(rng, false);
            let mut unit = 0;
            let all: Vec<(u32, u32)> = (0..self.spec.formats.len() as u32)
                .flat_map(|p| (0..self.spec.spaces.len() as u32).map(move |c| (p, c))).collect();
            for &(pf, cs) in &all {
                for &np in &some {
                    unit += 1;
                    if unit % a.shards != a.shard {
                        continue;
                    }
                    for &(pf2, cs2) in &all {
                        for &np2 in &some {
                            for (w, h) in [(4, 4), (5, 4), (4, 5), (0, 4), (4, 0), (0, 5)] {
                                let (s, d) = (D { pf, cs, np }, D { pf: pf2, cs: cs2, np: np2 });
                                let (ss, ds) = (Self::side(&self.src, s, 0), Self::side(&self.dst, d, 0));
                                current(format_args!("{{\"w\":{w},\"h\":{h},\"src\":{},\"dst\":{},\"phase\":\"interfaces\"}}", ss.json(), ds.json()));
                                let rust = convert(w, h, &ss, &ds);
                                let (c, clean) = convert_c(w, h, &ss, &ds);
                                self.rep.evaluations += 1;
                                if rust != c || !clean {
                                    self.rep.violation("the interfaces disagree", json!({"rust": rust.name(), "c": c.name(), "error used properly": clean}));
                                }
                            }
                        }
                    }
                    self.rep.nontrivial += 1;
                    // size queries
                    for (w, h) in [(4u32, 4u32), (5, 4), (4, 5), (0, 4), (4, 0), (5, 0), (1920, 1080)] {
                        for strides in [None, Some([0usize, 0, 0]), Some([5000, 0, 7]), Some([0, 100, 100])] {
                            let (mut x, mut y) = ([7usize; 5], [7usize; 5]);
                            current(format_args!("{{\"call\":\"sizes\",\"w\":{w},\"h\":{h},\"pf\":{pf},\"cs\":{cs},\"np\":{np},\"strides\":{}}}", json!(strides)));
                            let rust = sizes(w, h, pf, cs, np, strides.as_ref().map(|s| &s[..]), &mut x);
                            let c = sizes_c(w, h, pf, cs, np, strides.as_ref().map(|s| &s[..]), &mut y);
                            self.rep.evaluations += 1;
                            if rust != c || x != y {
                                self.rep.violation("the interfaces disagree", json!({"rust": [json!(rust.name()), json!(x)], "c": [json!(c.name()), json!(y)]}));
                            }
                        }
                    }
                }
            }
        }

        fn refused(&mut self, r: i32, e: Option<i32>, what: &str) {
            let (o, clean) = c::outcome(r, e);
            self.rep.evaluations += 1;
            let ok = match e {
                Some(_) => o == Out::InvalidValue && clean,
                None => o == Out::Garbage && clean,
            };
            if !ok {
                self.rep.violation("nonsense was not refused as an invalid value", json!({"what": what, "returned": r, "outcome": o.name(), "error": e}));
            }
        }

        /// What C programs can get wrong, one by one and two at a time. No
        /// image memory exists.
        pub fn nonsense(&mut self, a: &Args, rng: &mut Rng) {
            let spec = self.spec;
            let nowhere = crate::mem::phantom(1 << 36);
            let some = counts(rng, false);
            let pfs: Vec<u32> = (0..spec.formats.len() as u32).chain(ODD).collect();
            let css: Vec<u32> = (0..spec.spaces.len() as u32).chain(ODD_SPACE).collect();
            let legal = |d: &CDesc| (d.pf as usize) < spec.formats.len() && (d.cs as usize) < spec.spaces.len()
                && spec.formats[d.pf as usize].layouts.iter().any(|l| l.0 == d.np);
            // (the arrays of a program that means it)
            let entries = |np: u32| np.clamp(1, 3) as usize;
            let t = crate::mem::Tight::new();
            let sizes = [(4u32, 4u32), (5, 5), (0, 4), (4, 0), (0, 0), (1 << 31, 1 << 31), (u32::MAX, u32::MAX)];
            let mut unit = 0;
            for &pf in &pfs {
                for &cs in &css {
                    unit += 1;
                    if unit % a.shards != a.shard {
                        continue;
                    }
                    for &np in &some {
                        let bad = CDesc { pf, cs, np };
                        let is_bad = !legal(&bad);
                        for &(w, h) in &sizes {
                            // conversion, on either side, with a good or a bad other side
                            for side in 0..2 {
                                let cv = &spec.convs[rng.below(spec.convs.len())];
                                let other = if side == 0 { &cv.dst } else { &cv.src };
                                let mut o = CDesc { pf: other.pf, cs: other.cs, np: other.np };
                                if rng.one_in(4) {
                                    o.pf = *rng.pick(&pfs);
                                }
                                // plane pointers of a good side may be missing
                                let null_plane = if legal(&o) && (!is_bad || rng.one_in(3)) { 1 + rng.below(o.np as usize) } else { 0 };
                                if !is_bad && null_plane == 0 && legal(&o) {
                                    continue;
                                }
                                let planes = |k: usize, miss: usize| -> Vec<*mut u8> {
                                    (0..entries(if k == 0 { np } else { o.np })).map(|p| if p + 1 == miss { std::ptr::null_mut() } else { unsafe { nowhere.add((k * 8 + p) << 30) } }).collect()
                                };
                                let (x, y) = (planes(0, 0), planes(1, null_plane));
                                let (b, g) = (c_numbers(bad), c_numbers(o));
                                let word = *rng.pick(&[0usize, 1, 4096, usize::MAX, usize::MAX / 2]);
                                let stp = if rng.one_in(2) { null() } else { t.constant(1, &vec![word; entries(np)]) };
                                let e = t.place(6, &[c::UNTOUCHED]);
                                let with_error = !rng.one_in(5);
                                current(format_args!("{{\"call\":\"dcp_convert_image\",\"w\":{w},\"h\":{h},\"side\":{side},\"this\":[{pf},{cs},{np}],\"other\":[{},{},{}],\"null plane of the other\":{null_plane}}}", o.pf, o.cs, o.np));
                                let r = unsafe {
                                    let er = if with_error { e } else { std::ptr::null_mut() };
                                    let (xs, ys) = (t.constant(2, &x), t.constant(3, &y));
                                    let (b, g) = (t.constant(4, &c::build(&b)), t.constant(5, &c::build(&g)));
                                    if side == 0 { c::shim_convert_at(w, h, b, stp, xs.cast(), g, null(), ys, er) }
                                    else { c::shim_convert_at(w, h, g, null(), ys.cast(), b, stp, xs, er) }
                                };
                                self.refused(r, with_error.then(|| unsafe { *e }), "conversion");
                            }
                            // size query: the color space has no part in it
                            if (pf as usize) >= spec.formats.len() || !spec.formats[pf as usize].layouts.iter().any(|l| l.0 == np) {
                                let b = c_numbers(bad);
                                let e = t.place(6, &[c::UNTOUCHED]);
                                let array = t.place(2, &vec![77usize; entries(np)]);
                                current(format_args!("{{\"call\":\"dcp_get_buffers_size\",\"w\":{w},\"h\":{h},\"format\":[{pf},{cs},{np}]}}"));
                                let r = unsafe { c::shim_sizes_at(w, h, t.constant(4, &c::build(&b)), null(), array, e) };
                                self.refused(r, Some(unsafe { *e }), "size query");
                                let array = unsafe { std::slice::from_raw_parts(array, entries(np)) };
                                if array.iter().any(|&x| x != 77) {
                                    self.rep.violation("a refused size query wrote", json!(array));
                                }
                            }
                        }
                        self.rep.nontrivial += 1;
                    }
                }
            }
            // every set of null pointers
            for c in &spec.convs {
                if c.id % a.shards != a.shard {
                    continue;
                }
                let (s, d) = (c_numbers(CDesc { pf: c.src.pf, cs: c.src.cs, np: c.src.np }), c_numbers(CDesc { pf: c.dst.pf, cs: c.dst.cs, np: c.dst.np }));
                let (ns, nd) = (c.src.planes.len(), c.dst.planes.len());
                for set in 1..1usize << (4 + ns + nd) {
                    let has = |k: usize| set >> k & 1 == 1;
                    let x: Vec<*mut u8> = (0..ns).map(|p| if has(4 + p) { std::ptr::null_mut() } else { unsafe { nowhere.add(p << 30) } }).collect();
                    let y: Vec<*mut u8> = (0..nd).map(|p| if has(4 + ns + p) { std::ptr::null_mut() } else { unsafe { nowhere.add((8 + p) << 30) } }).collect();
                    let (w, h) = *rng.pick(&sizes);
                    let e = t.place(6, &[c::UNTOUCHED]);
                    let with_error = !rng.one_in(5);
                    current(format_args!("{{\"call\":\"dcp_convert_image\",\"w\":{w},\"h\":{h},\"conv\":\"{}\",\"null pointers\":{set}}}", spec.name(c)));
                    let r = unsafe {
                        c::shim_convert_at(w, h, if has(0) { null() } else { t.constant(4, &c::build(&s)) }, null(), if has(1) { null() } else { t.constant(2, &x).cast() },
                                   if has(2) { null() } else { t.constant(5, &c::build(&d)) }, null(), if has(3) { null() } else { t.constant(3, &y) },
                                   if with_error { e } else { std::ptr::null_mut() })
                    };
                    self.refused(r, with_error.then(|| unsafe { *e }), "null pointers");
                }
                self.rep.nontrivial += 1;
            }
        }
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut m = Matrix { spec: &spec, rep: Report::new(), src: Pool::new(1 << 20), dst: Pool::new(1 << 20) };
    let mut rng = Rng::new(a.seed ^ 0x3a721 ^ ((a.shard as u64) << 40));
    match a.get("part") {
        #[cfg(not(feature = "isa"))]
        "interfaces" => m.interfaces(a, &mut rng),
        #[cfg(not(feature = "isa"))]
        "nonsense" => {
            for _ in 0..if a.thorough { 60 } else { 4 } {
                m.nonsense(a, &mut rng);
            }
        }
        "queries" => {
            for _ in 0..if a.thorough { 40 } else { 3 } {
                m.queries(a, &mut rng);
            }
        }
        _ => {
            for isa in isas() {
                m.descriptions(a, isa, &mut rng);
                m.edges(a, isa, &mut rng);
            }
        }
    }
    m.rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap());
    m.rep.finish();
}
