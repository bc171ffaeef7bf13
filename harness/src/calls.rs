//! Calls that are made in processes of their own.
use crate::exec::{convert, describe, sizes, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{footprint, Conv, Spec};
use crate::rng::Rng;
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Image {
    pub conv: usize,
    pub w: usize,
    pub h: usize,
    pub ss: Strides,
    pub ds: Strides,
    pub sl: Vec<usize>,
    pub dl: Vec<usize>,
    pub at: [usize; 8],
    /// other numbers than the ones of the conversion
    pub cs: Option<u32>,
    pub np: Option<u32>,
    pub seed: u64,
}

#[derive(Clone, Debug)]
pub enum Call {
    Convert { c: bool, i: Image, chained: bool },
    Sizes { w: u32, h: u32, pf: u32, np: u32, strides: Option<Vec<usize>>, slots: usize },
    Describe { c: bool },
}

pub fn c_too(rng: &mut Rng) -> bool {
    !cfg!(feature = "isa") && rng.one_in(3)
}

pub fn image(rng: &mut Rng, spec: &Spec, c: &Conv) -> Image {
    let step = if c.even_w { 2 } else { 1 };
    let w = match rng.below(3) { 0 => 1 + rng.below(9), 1 => 1 + rng.below(70), _ => *rng.pick(&[16, 32, 33, 34, 64, 66, 130]) };
    let w = w.div_ceil(step) * step;
    let h = height(rng, c).min(4);
    let (ss, ds) = (random_strides(rng, &c.src, w, false), random_strides(rng, &c.dst, w, false));
    let (sl, dl) = (lens(&c.src, w, h, &ss), lens(&c.dst, w, h, &ds));
    let mut at = [0; 8];
    at.iter_mut().for_each(|a| *a = 512 + rng.below(64));
    let _ = spec;
    Image { conv: c.id, w, h, ss, ds, sl, dl, at, cs: None, np: None, seed: rng.next() }
}

fn seeded(seed: u64, bufs: &[(*mut u8, usize)]) {
    let mut r = Rng::new(seed);
    for b in bufs {
        fill(&mut r, slice(*b));
    }
}

impl Call {
    pub fn json(&self, spec: &Spec) -> Value {
        match self {
            Call::Convert { c, i, chained } => json!({"call": "convert", "c": c, "conv": spec.name(&spec.convs[i.conv]), "w": i.w, "h": i.h,
                "strides": [i.ss.given, i.ds.given], "lens": [i.sl, i.dl], "at": i.at, "cs": i.cs, "np": i.np, "chained": chained}),
            Call::Sizes { w, h, pf, np, strides, slots } =>
                json!({"call": "sizes", "w": w, "h": h, "pf": pf, "np": np, "strides": strides, "slots": slots}),
            Call::Describe { c } => json!({"call": "describe", "c": c}),
        }
    }

    pub fn any(rng: &mut Rng, spec: &Spec) -> Call {
        match rng.below(10) {
            0 => Call::Describe { c: c_too(rng) },
            1 | 2 => {
                let f = rng.pick(&spec.formats);
                let l = rng.pick(&f.layouts);
                let (w, h) = (rng.below(80) as u32, rng.below(80) as u32);
                Call::Sizes {
                    w: if rng.one_in(5) { w } else { w & !1 }, h: if rng.one_in(5) { h } else { h & !1 }, pf: f.pf,
                    np: if rng.one_in(5) { rng.below(5) as u32 } else { l.0 },
                    strides: (!rng.one_in(3)).then(|| (0..rng.below(5)).map(|_| rng.below(200)).collect()),
                    slots: 2 + rng.below(3),
                }
            }
            _ => {
                let c = rng.pick(&spec.convs);
                let c_api = c_too(rng);
                Call::Convert { c: c_api, i: image(rng, spec, c), chained: false }
            }
        }
    }

    /// A call much like this one
    pub fn vary(&self, rng: &mut Rng, spec: &Spec) -> Call {
        let mut x = self.clone();
        match &mut x {
            Call::Convert { c, i, chained } => {
                *chained = false;
                match rng.below(11) {
                    0 => {}
                    1 => i.seed = rng.next(),
                    2 => *c = c_too(rng),
                    3 => {
                        // (the C interface does not know lengths)
                        *c = false;
                        let n = i.sl.len();
                        let k = rng.below(n + i.dl.len());
                        let l = if k < n { &mut i.sl[k] } else { &mut i.dl[k - n] };
                        *l -= 1 + rng.below((*l).min(40));
                    }
                    4 => i.at = { let mut a = i.at; a.iter_mut().for_each(|a| *a = 512 + rng.below(64)); a },
                    5 => i.cs = Some(rng.below(5) as u32),
                    6 => i.np = Some(rng.other(spec.convs[i.conv].dst.np)),
                    7 => {
                        if rng.one_in(2) { i.w = 0 } else { i.h = 0 }
                    }
                    _ => {
                        // another conversion, or the same with another layout and the same size
                        let old = &spec.convs[i.conv];
                        let like: Vec<&Conv> = spec.convs.iter().filter(|c| {
                            (rng.one_in(3) || c.src.pf == old.src.pf || c.dst.pf == old.dst.pf)
                                && (!c.even_w || i.w % 2 == 0) && (!c.even_h || i.h % 2 == 0)
                        }).collect();
                        if let (false, true) = (like.is_empty(), i.w > 0 && i.h > 0) {
                            let cv = like[rng.below(like.len())];
                            let mut n = image(rng, spec, cv);
                            (n.w, n.h) = (i.w, i.h);
                            (n.ss, n.ds) = (random_strides(rng, &cv.src, n.w, false), random_strides(rng, &cv.dst, n.w, false));
                            (n.sl, n.dl) = (lens(&cv.src, n.w, n.h, &n.ss), lens(&cv.dst, n.w, n.h, &n.ds));
                            *i = n;
                        }
                    }
                }
                let cv = &spec.convs[i.conv];
                let (w, h) = (i.w.max(1), i.h.max(1));
                let short = i.sl.iter().zip(lens(&cv.src, w, h, &i.ss)).chain(i.dl.iter().zip(lens(&cv.dst, w, h, &i.ds))).any(|(&l, n)| l < n);
                if i.cs.is_some() || i.np.is_some() || short {
                    *c = false;
                }
            }
            Call::Sizes { w, h, strides, slots, .. } => match rng.below(5) {
                0 => *w += 1,
                1 => *h += 2,
                2 => *strides = None,
                3 => *slots = rng.below(4),
                _ => {}
            },
            Call::Describe { c } => *c = c_too(rng),
        }
        x
    }

    pub fn sides(&self, spec: &Spec, src: &Pool, dst: &Pool) -> Option<(Side, Side)> {
        let Call::Convert { i, .. } = self else { return None };
        let c = &spec.convs[i.conv];
        let at: Vec<Place> = i.at.iter().map(|&a| Place::Mid(a)).collect();
        let s = src.side(&c.src, &i.ss, &i.sl, &at[..4]);
        let mut d = dst.side(&c.dst, &i.ds, &i.dl, &at[4..]);
        d.cs = i.cs.unwrap_or(d.cs);
        d.np = i.np.unwrap_or(d.np);
        Some((s, d))
    }

    /// Writes the source image
    pub fn prepare(&self, spec: &Spec, src: &Pool, dst: &Pool, given: Option<&[Vec<u8>]>) {
        if let (Some((s, _)), Call::Convert { i, .. }) = (self.sides(spec, src, dst), self) {
            match given {
                None => seeded(i.seed, &s.bufs),
                Some(g) => s.bufs.iter().zip(g).for_each(|(b, g)| slice(*b)[..g.len()].copy_from_slice(g)),
            }
        }
    }

    fn seeded_like(seed: u64, lens: &[usize]) -> Vec<Vec<u8>> {
        let mut r = Rng::new(seed);
        lens.iter().map(|&l| { let mut v = vec![0; l]; fill(&mut r, &mut v); v }).collect()
    }
    /// What the destination held before
    pub fn seeded_buffers(&self, seed: u64) -> Vec<Vec<u8>> {
        let Call::Convert { i, .. } = self else { return vec![] };
        Call::seeded_like(seed, &i.dl)
    }
    pub fn source_buffers(&self) -> Vec<Vec<u8>> {
        let Call::Convert { i, .. } = self else { return vec![] };
        Call::seeded_like(i.seed, &i.sl)
    }

    /// Makes the call; the result is the outcome and what was written. With
    /// `chain`, the source is where that pool has it.
    pub fn make(&self, spec: &Spec, src: &Pool, dst: &Pool, dst_seed: u64, chain: bool) -> Vec<u8> {
        match self {
            Call::Describe { c } => {
                let mut v = vec![0];
                #[cfg(not(feature = "isa"))]
                if *c {
                    let p = crate::exec::c::describe();
                    if !p.is_null() {
                        v.extend(unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes());
                    }
                    unsafe { crate::exec::c::unref(p) };
                    return v;
                }
                let _ = c;
                v.extend(describe().as_bytes());
                v
            }
            Call::Sizes { w, h, pf, np, strides, slots } => {
                let mut array = vec![dst_seed as usize; *slots];
                let o = sizes(*w, *h, *pf, 0, *np, strides.as_deref(), &mut array);
                let mut v = vec![o as u8];
                if o == Out::Ok {
                    for x in array {
                        v.extend((if x == dst_seed as usize { 0 } else { x }).to_le_bytes());
                    }
                }
                v
            }
            Call::Convert { c, i, .. } => {
                let (s, d) = self.sides(spec, src, dst).unwrap();
                let _ = chain;
                seeded(dst_seed, &d.bufs);
                #[cfg(not(feature = "isa"))]
                let o = if *c { super::modes::crecord::convert_c(i.w as u32, i.h as u32, &s, &d).0 }
                        else { convert(i.w as u32, i.h as u32, &s, &d) };
                #[cfg(feature = "isa")]
                let o = { let _ = c; convert(i.w as u32, i.h as u32, &s, &d) };
                let mut v = vec![o as u8];
                for b in &d.bufs {
                    v.extend_from_slice(slice(*b));
                }
                v
            }
        }
    }

    /// The part of a result that is determined by the arguments
    pub fn visible(&self, spec: &Spec, result: &[u8]) -> Vec<u8> {
        let Call::Convert { i, .. } = self else { return result.to_vec() };
        let mut v = vec![*result.first().unwrap_or(&99)];
        if v[0] != Out::Ok as u8 || i.w == 0 || i.h == 0 || i.np.is_some() {
            return v;
        }
        let c = &spec.convs[i.conv];
        if result.len() != 1 + i.dl.iter().sum::<usize>() {
            return result.to_vec();
        }
        let mut at = 1;
        let mut marks: Vec<Vec<u8>> = i.dl.iter().map(|&l| vec![0; l]).collect();
        let short = i.dl.iter().zip(lens(&c.dst, i.w, i.h, &i.ds)).any(|(&l, n)| l < n);
        if short {
            return v;
        }
        let mut m: Vec<(&mut [u8], usize)> = marks.iter_mut().zip(&i.ds.actual).map(|(m, &s)| (&mut m[..], s)).collect();
        footprint(&c.dst, i.w, i.h, &mut m);
        for m in &marks {
            for (o, &k) in m.iter().enumerate() {
                if k != 0 {
                    v.push(result[at + o]);
                }
            }
            at += m.len();
        }
        v
    }

    /// The destination buffers of a result
    pub fn buffers(&self, result: &[u8]) -> Vec<Vec<u8>> {
        let Call::Convert { i, .. } = self else { return vec![] };
        let mut at = 1;
        i.dl.iter().map(|&l| {
            at += l;
            result[at - l..at].to_vec()
        }).collect()
    }
}

/// The instruction sets to try in children; this process does not ask the
/// library
pub fn child_isas() -> Vec<Isa> {
    if !cfg!(feature = "isa") {
        return vec![Isa::Default];
    }
    if std::arch::is_x86_feature_detected!("avx2") { vec![Isa::X86, Isa::Sse2, Isa::Avx2] } else { vec![Isa::X86, Isa::Sse2] }
}

/// Memory that is shared with children
pub struct Shared {
    data: *mut u8,
    size: usize,
}

impl Shared {
    pub fn new(size: usize) -> Shared {
        let data = unsafe {
            libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        assert!(data != libc::MAP_FAILED);
        Shared { data: data.cast(), size }
    }
    fn word(&self, slot: usize, slots: usize) -> *mut u8 {
        assert!(slot < slots);
        unsafe { self.data.add(self.size / slots / 64 * 64 * slot) }
    }
    pub fn put(&self, slot: usize, slots: usize, v: &[u8]) {
        let p = self.word(slot, slots);
        assert!(v.len() + 8 <= self.size / slots / 64 * 64, "{}", v.len());
        unsafe {
            std::ptr::copy_nonoverlapping(v.as_ptr(), p.add(8), v.len());
            p.cast::<u64>().write(v.len() as u64 + 1);
        }
    }
    pub fn get(&self, slot: usize, slots: usize) -> Option<Vec<u8>> {
        let p = self.word(slot, slots);
        unsafe {
            let n = p.cast::<u64>().read();
            (n > 0).then(|| std::slice::from_raw_parts(p.add(8), n as usize - 1).to_vec())
        }
    }
    pub fn clear(&self, slots: usize) {
        for k in 0..slots {
            unsafe { self.word(k, slots).cast::<u64>().write(0) };
        }
    }
}

/// Runs `f` in a child. How it ended: nothing, if properly.
pub fn in_child(seconds: u32, f: impl FnOnce()) -> Option<String> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM] {
                libc::signal(sig, libc::SIG_DFL);
            }
            libc::alarm(seconds);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 0 } else { 101 });
        }
        let mut st = 0;
        crate::report::WAITING.store(true, std::sync::atomic::Ordering::SeqCst);
        while libc::waitpid(pid, &mut st, 0) != pid {}
        crate::report::WAITING.store(false, std::sync::atomic::Ordering::SeqCst);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return Some(if s == libc::SIGALRM { "did not return".into() } else { format!("ended by signal {s}") });
        }
        let e = libc::WEXITSTATUS(st);
        (e != 0).then(|| format!("ended with status {e}"))
    }
}
