//! C description strings: memory comes back, each string lives on its own.
use crate::exec::{c, describe};
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;
use std::ffi::CStr;
use std::os::raw::c_char;

fn in_use() -> usize {
    let m = unsafe { libc::mallinfo2() };
    m.uordblks + m.hblkhd
}

unsafe fn text(p: *const c_char) -> String {
    if p.is_null() { "(null)".into() } else { CStr::from_ptr(p).to_string_lossy().into_owned() }
}

pub fn run(a: &Args) {
    let mut rep = Report::new();
    // memory that is given back is scribbled over at once
    unsafe {
        libc::mallopt(libc::M_PERTURB, 0x5c);
        libc::mallopt(-8 /* M_ARENA_MAX */, 1);
    }
    let want = describe();
    let mut rng = Rng::new(a.seed ^ 0x1ea ^ ((a.shard as u64) << 40));
    let rounds = if a.thorough { 4000 } else { 400 };
    for round in 0..rounds {
        let n = 1 + rng.below(if round % 10 == 0 { 200 } else { 8 });
        let mut live: Vec<*mut c_char> = Vec::with_capacity(n);
        current(format_args!("{{\"strings\":{n},\"round\":{round}}}"));
        let mut junk: Vec<*mut libc::c_void> = Vec::with_capacity(n);
        let before = in_use();
        for _ in 0..n {
            live.push(c::describe());
            rep.evaluations += 1;
        }
        let all: std::collections::HashSet<usize> = live.iter().map(|&p| p as usize).collect();
        if all.len() != n || all.contains(&0) {
            rep.violation("two live strings are the same, or there is none", json!({"distinct": all.len(), "strings": n}));
            return rep.finish();
        }
        let mut bad = None;
        while !live.is_empty() {
            // nothing happens to the others, whichever is released
            for (k, &p) in live.iter().enumerate() {
                let t = unsafe { text(p) };
                if t != want {
                    bad = Some(json!({"index": k, "live": live.len(), "got": t, "expected": want}));
                }
                rep.nontrivial += 1;
            }
            if bad.is_some() {
                break;
            }
            let k = match round % 3 { 0 => live.len() - 1, 1 => 0, _ => rng.below(live.len()) };
            let p = live.remove(k);
            unsafe { c::unref(p) };
            if rng.one_in(4) {
                unsafe { c::unref(std::ptr::null_mut()) };
            }
            // the memory may go to somebody else
            if rng.one_in(2) && junk.len() < n {
                unsafe {
                    let l = 16 + rng.below(80);
                    let j = libc::malloc(l);
                    libc::memset(j, 0x23, l);
                    junk.push(j);
                }
            }
        }
        for &j in &junk {
            unsafe { libc::free(j) };
        }
        if let Some(b) = bad {
            rep.violation("a live string changed", b);
            return rep.finish();
        }
        let after = in_use();
        // (freed chunks may wait in a cache that counts as in use: what grows
        // without end is a leak, and is looked for below)
        rep.count("rounds", 1);
        let _ = (before, after);
    }
    // strings can be written to by their owner without any effect on others
    let (p, q) = (c::describe(), c::describe());
    unsafe {
        *p = b'?' as c_char;
        let (t, r) = (text(q), describe());
        if t != want || r != want {
            rep.violation("a string shares memory with another", json!({"other": t, "description": r}));
        }
        *p = want.as_bytes()[0] as c_char;
        c::unref(q);
        if text(p) != want {
            rep.violation("a live string changed", json!({"got": text(p)}));
        }
        c::unref(p);
    }
    // many in a row: what is in use does not grow
    let mut marks = vec![];
    for _ in 0..4 {
        for _ in 0..if a.thorough { 400_000 } else { 40_000 } {
            let p = c::describe();
            unsafe { c::unref(p) };
            rep.evaluations += 1;
        }
        marks.push(in_use());
    }
    current(format_args!("{{\"marks\":{marks:?}}}"));
    if marks[3] > marks[0] + 4096 {
        rep.violation("released strings keep their memory", json!({"in use": marks}));
    }
    // ... nor if many live at the same time
    let mut marks = vec![];
    for _ in 0..4 {
        let v: Vec<*mut c_char> = (0..20_000).map(|_| c::describe()).collect();
        for p in v {
            unsafe { c::unref(p) };
        }
        marks.push(in_use());
    }
    current(format_args!("{{\"marks\":{marks:?},\"live\":20000}}"));
    if marks[3] > marks[0] + 4096 {
        rep.violation("released strings keep their memory", json!({"in use": marks}));
    }
    rep.sample(|| json!({"description": want, "in use": marks}));
    rep.finish();
}
