//! Images of up to 2^32 columns or rows, in buffers that exist as address
//! space. A call that is accepted would take very long, so that each is made
//! by a child that only has some processor time: what is refused, faults or
//! panics does so at once, and what still runs was accepted.
use super::suffice::ask;
use crate::exec::{convert, isas, Isa, Out, Side};
use crate::lay::*;
use crate::mem::Place;
use crate::model::{packed, Conv, Desc};
use crate::report::{current, quiet_faults, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;

const LIMIT: usize = 1 << 42;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Seen {
    Returned(Out),
    Running,
    Fault,
}

impl Seen {
    fn name(self) -> &'static str {
        match self {
            Seen::Returned(o) => o.name(),
            Seen::Running => "running",
            Seen::Fault => "fault",
        }
    }
    /// Whether the request was taken as valid
    fn accepted(self) -> bool {
        matches!(self, Seen::Returned(Out::Ok) | Seen::Running)
    }
}

/// The call, in a child with `ms` of processor time
fn observe(f: impl FnOnce() -> Out, ms: usize) -> Seen {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            quiet_faults();
            libc::signal(libc::SIGPROF, libc::SIG_DFL);
            let t = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: (ms / 1000) as i64, tv_usec: (ms % 1000 * 1000) as i64 },
            };
            libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
            let o = f();
            libc::_exit(100 + o as i32);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if libc::WIFSIGNALED(status) {
            if libc::WTERMSIG(status) == libc::SIGPROF { Seen::Running } else { Seen::Fault }
        } else {
            match libc::WEXITSTATUS(status) {
                n @ 100..=105 => Seen::Returned(Out::by_number((n - 100) as u8)),
                _ => Seen::Fault,
            }
        }
    }
}

fn dim(rng: &mut Rng, even: bool) -> usize {
    let d = match rng.below(6) {
        0 => (1 << 30) + rng.below(3 << 30),
        1 => *rng.pick(&[65535, 65536, 65537, 46341, 46342, 92682, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0x5555_5555, 0x5555_5556, 0xaaaa_aaaa, 0xaaaa_aaab]),
        2 => u32::MAX as usize - rng.below(70),
        _ => 1 + ((rng.next() as u32) >> rng.below(32)) as usize,
    };
    let d = d.clamp(1, u32::MAX as usize);
    if even { (d & !1).max(2) } else { d }
}

/// Strides of any kind: default, longer, or so short that rows overlap
fn strides(rng: &mut Rng, d: &Desc, w: usize, may_overlap: bool) -> Strides {
    if rng.one_in(3) {
        return default_strides(d, w);
    }
    let mut s = default_strides(d, w);
    let mut given = s.actual.clone();
    for (k, p) in d.planes.iter().enumerate() {
        let row = packed(p, w as u64) as usize;
        given[k] = match rng.below(4) {
            0 => 0,
            1 => row + rng.below(70),
            2 if may_overlap && p.len() == 1 => 1 + rng.below(row.min(64)),
            _ => row,
        };
        s.actual[k] = if given[k] == 0 { row } else { given[k] };
    }
    Strides { given: Some(given), actual: s.actual }
}

struct Shape {
    w: usize,
    h: usize,
    ss: Strides,
    ds: Strides,
}

fn fits(d: &Desc, w: usize, h: usize, s: &Strides) -> bool {
    d.planes.iter().zip(&s.actual).all(|(p, &st)| {
        u128::from(crate::model::total_rows(p, h as u64)) * st as u128 + u128::from(packed(p, w as u64)) < LIMIT as u128
    })
}

fn shape(rng: &mut Rng, c: &Conv, overlap: bool) -> Option<Shape> {
    for _ in 0..200 {
        let (w, h) = (dim(rng, c.even_w), dim(rng, c.even_h));
        if w * h < 1 << 27 {
            continue;
        }
        let x = Shape { w, h, ss: strides(rng, &c.src, w, overlap), ds: strides(rng, &c.dst, w, overlap) };
        if fits(&c.src, w, h, &x.ss) && fits(&c.dst, w, h, &x.ds) {
            return Some(x);
        }
    }
    None
}

fn call(w: usize, h: usize, s: &Side, d: &Side, by_c: bool) -> Out {
    #[cfg(not(feature = "isa"))]
    if by_c {
        return super::crecord::convert_c(w as u32, h as u32, s, d).0;
    }
    let _ = by_c;
    convert(w as u32, h as u32, s, d)
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let prop = a.get("prop").to_string();
    let isas = isas();
    let mut rep = Report::new();
    let (src, dst) = (Pool::new(LIMIT), Pool::new(LIMIT));
    let n = a.num("n", if a.thorough { 300 } else { 48 });
    let ms = a.num("ms", if a.thorough { 60 } else { 20 });
    let mut unit = 0;
    for c in &spec.convs {
        let mut rng = Rng::new(a.seed ^ 0xc010_55a1 ^ ((c.id as u64) << 32));
        for k in 0..n {
            let mut rng = rng.fork();
            unit += 1;
            if unit % a.shards != a.shard {
                continue;
            }
            let Some(x) = shape(&mut rng, c, prop != "C10") else { continue };
            let isa: Isa = isas[k % isas.len()];
            let (mut sl, mut dl) = (lens(&c.src, x.w, x.h, &x.ss), lens(&c.dst, x.w, x.h, &x.ds));
            if prop == "C10" {
                let ask = |rng: &mut Rng, d: &Desc, s: &Strides| ask(rng, x.w, x.h, d, s)
                    .filter(|l| l.iter().all(|&l| l <= LIMIT));
                let (Some(s), Some(d)) = (ask(&mut rng, &c.src, &x.ss), ask(&mut rng, &c.dst, &x.ds)) else {
                    rep.count("query refused", 1);
                    continue;
                };
                (sl, dl) = (s, d);
            }
            // ... and the same without the last byte
            for short in [false, true] {
                if short && prop != "C01" {
                    continue;
                }
                if short {
                    let k = rng.below(sl.len() + dl.len());
                    let n = sl.len();
                    let l = if k < n { &mut sl[k] } else { &mut dl[k - n] };
                    *l -= 1 + rng.below(*l).min(rng.below(2) * rng.below(1 << 20));
                }
                let side = |p: &Pool, d: &Desc, s: &Strides, l: &[usize], r: &mut Rng| {
                    let place = if r.one_in(2) { Place::Start } else { Place::End };
                    p.side(d, s, l, &[place; 4])
                };
                let (s, d) = (side(&src, &c.src, &x.ss, &sl, &mut rng), side(&dst, &c.dst, &x.ds, &dl, &mut rng));
                current(format_args!("{{\"isa\":\"{}\",\"conv\":\"{}\",\"w\":{},\"h\":{},\"src\":{},\"dst\":{}}}",
                                     isa.name(), spec.name(c), x.w, x.h, s.json(), d.json()));
                isa.select();
                rep.evaluations += 1;
                let seen = observe(|| call(x.w, x.h, &s, &d, false), ms);
                rep.nontrivial += 1;
                rep.count(seen.name(), 1);
                let bad = match prop.as_str() {
                    "C01" if short => (seen != Seen::Returned(Out::NotEnoughData)).then_some("missing data were not noticed"),
                    // (a panic or a fault in a call that was accepted is for others to judge)
                    "C01" => matches!(seen, Seen::Returned(o) if o != Out::Ok && o != Out::Panic).then_some("a valid request was refused"),
                    "C10" => matches!(seen, Seen::Returned(o) if o != Out::Ok).then_some("buffers of the queried sizes were refused"),
                    "C11" => {
                        let other = observe(|| call(x.w, x.h, &s, &d, true), ms);
                        let same = seen.accepted() && other.accepted() || seen == other;
                        (!same).then_some("the interfaces disagree")
                    }
                    "C19" => match seen {
                        Seen::Fault => Some("the call crashed"),
                        Seen::Returned(Out::Panic) => Some("the call panicked"),
                        _ => None,
                    },
                    _ => panic!("property"),
                };
                if let Some(what) = bad {
                    rep.violation(what, json!({"outcome": seen.name()}));
                }
            }
        }
    }
    rep.sample(|| serde_json::from_str(&crate::report::current_text()).unwrap_or_default());
    rep.finish();
}
