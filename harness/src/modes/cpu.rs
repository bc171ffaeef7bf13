//! What the library says about a machine. Each of the machines of the
//! specification is played to a fresh process: the CPUID instruction traps
//! there, and is answered as that machine would. The XGETBV instruction, which
//! tells what the operating system saves, does not trap: the calls of the library
//! that may find out about the machine are made step by step, and that
//! instruction is stepped over. Where CPUID cannot be made to trap, only the
//! machine at hand is looked at; where steps cannot be made, only machines with
//! the operating system at hand.
use crate::exec::{convert, describe, Side};
use crate::lay::{default_strides, lens};
use crate::model::Spec;
use crate::report::{current, emit, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};
use std::arch::x86_64::__cpuid_count;
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

const ARCH_SET_CPUID: i32 = 0x1012;

fn trap_cpuid(on: bool) -> bool {
    unsafe { libc::syscall(libc::SYS_arch_prctl, ARCH_SET_CPUID, libc::c_long::from(!on)) == 0 }
}

#[derive(Clone, Copy, Default)]
struct Machine {
    vendor: [u8; 12],
    leaves: u32,
    /// sse2, avx, avx2, xsave, osxsave: one bit each
    has: u32,
    /// what XGETBV answers
    saved: u32,
}

static mut MACHINE: Option<Machine> = None;
static TRAPS: AtomicU32 = AtomicU32::new(0);
static DELAY: AtomicU64 = AtomicU64::new(0);

pub fn traps() -> u32 {
    TRAPS.load(Ordering::SeqCst)
}

fn answer(leaf: u32, sub: u32) -> [u32; 4] {
    trap_cpuid(false);
    let r = __cpuid_count(leaf, sub);
    trap_cpuid(true);
    let mut r = [r.eax, r.ebx, r.ecx, r.edx];
    let Some(m) = (unsafe { MACHINE }) else { return r };
    let bit = |x: u32, n: u32, on: bool| if on { x | 1 << n } else { x & !(1 << n) };
    let word = |k: usize| u32::from_le_bytes([m.vendor[k], m.vendor[k + 1], m.vendor[k + 2], m.vendor[k + 3]]);
    match leaf {
        0 => r = [m.leaves, word(0), word(8), word(4)],
        // leaves that do not exist read like the last one that does: anything
        _ if leaf > m.leaves && leaf < 0x4000_0000 => r = [u32::MAX; 4],
        1 => {
            r[3] = bit(r[3], 26, m.has & 1 != 0);
            r[2] = bit(r[2], 28, m.has & 2 != 0);
            r[2] = bit(r[2], 26, m.has & 8 != 0);
            r[2] = bit(r[2], 27, m.has & 16 != 0);
            if m.has & 2 == 0 {
                r[2] = bit(r[2], 12, false); // fma
            }
        }
        7 if sub == 0 => {
            r[1] = bit(r[1], 5, m.has & 4 != 0);
            r[1] = bit(r[1], 16, false); // avx512f
        }
        _ => {}
    }
    r
}

static STEPS: AtomicU32 = AtomicU32::new(0);
static ASKED: AtomicU32 = AtomicU32::new(0);
const MOST_STEPS: u32 = 60_000;
/// asked for what the operating system saves, where that is not enabled
const FORBIDDEN: i32 = 19;

/// Plays XGETBV, if that is next
unsafe fn play_xgetbv(g: &mut [libc::greg_t; 23]) {
    let pc = g[libc::REG_RIP as usize] as *const u8;
    if *pc == 0x0f && *pc.add(1) == 0x01 && *pc.add(2) == 0xd0 {
        let Some(m) = (unsafe { MACHINE }) else { return };
        if m.has & 16 == 0 {
            libc::_exit(FORBIDDEN);
        }
        ASKED.fetch_add(1, Ordering::SeqCst);
        let word = if g[libc::REG_RCX as usize] as u32 == 0 { m.saved } else { 0 };
        g[libc::REG_RAX as usize] = i64::from(word);
        g[libc::REG_RDX as usize] = 0;
        g[libc::REG_RIP as usize] += 3;
    }
}

extern "C" fn on_step(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g = &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        play_xgetbv(g);
        if STEPS.fetch_add(1, Ordering::SeqCst) > MOST_STEPS {
            g[libc::REG_EFL as usize] &= !0x100;
        }
    }
}

/// Makes a call step by step
fn stepping<T>(on: bool, f: impl FnOnce() -> T) -> T {
    if !on {
        return f();
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        let h: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = on_step;
        sa.sa_sigaction = h as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = f();
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    r
}

/// Whether steps can be made here
pub fn step_test() {
    unsafe { MACHINE = Some(Machine { has: 16, saved: 0xabc0_0007, ..Machine::default() }) };
    let word: u32 = stepping(true, || unsafe {
        let lo: u32;
        std::arch::asm!("nop", "xor ecx, ecx", "xgetbv", "nop", out("ecx") _, out("eax") lo, out("edx") _);
        lo
    });
    println!("{}", if word == 0xabc0_0007 && ASKED.load(Ordering::SeqCst) == 1 { "steps" } else { "no steps" });
}

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g = &mut (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs;
        let pc = g[libc::REG_RIP as usize] as *const u8;
        if *pc != 0x0f || *pc.add(1) != 0xa2 {
            libc::_exit(18);
        }
        TRAPS.fetch_add(1, Ordering::SeqCst);
        let d = DELAY.load(Ordering::SeqCst);
        if d > 0 {
            let t = libc::timespec { tv_sec: 0, tv_nsec: d as i64 };
            libc::nanosleep(&t, std::ptr::null_mut());
        }
        let r = answer(g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
        g[libc::REG_RAX as usize] = i64::from(r[0]);
        g[libc::REG_RBX as usize] = i64::from(r[1]);
        g[libc::REG_RCX as usize] = i64::from(r[2]);
        g[libc::REG_RDX as usize] = i64::from(r[3]);
        g[libc::REG_RIP as usize] += 2;
        if g[libc::REG_EFL as usize] & 0x100 != 0 {
            play_xgetbv(g);
        }
    }
}

fn take_over() -> bool {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = on_trap;
        sa.sa_sigaction = f as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
    trap_cpuid(true)
}

/// Makes every CPUID instruction of this thread and its children take a while
pub fn slow_cpuid(nanoseconds: u64) -> bool {
    DELAY.store(nanoseconds, Ordering::SeqCst);
    take_over()
}

/// w, h and the descriptions of the conversions done on each machine
const JOBS: usize = 5;

struct Job {
    w: usize,
    h: usize,
    d: [(u32, u32, u32); 2],
    sl: Vec<usize>,
    dl: Vec<usize>,
}

/// The child: it must not look at its processor before the library does
pub fn child(a: &Args) {
    let mut m = Machine { leaves: a.num("leaves", 0) as u32, has: a.num("has", 0) as u32,
                          saved: a.num("saved", 0) as u32, ..Machine::default() };
    let v = a.get("vendor").as_bytes();
    if v.len() == 12 {
        m.vendor.copy_from_slice(v);
        unsafe { MACHINE = Some(m) };
        if !take_over() {
            println!("no trap");
            return;
        }
    }
    let first = a.get("first") == "describe";
    let steps = a.get("steps") == "1";
    let mut text = String::new();
    if first {
        text = stepping(steps, describe);
    }
    let mut sums = vec![];
    for k in 0..JOBS {
        let n: Vec<usize> = a.get(&format!("job{k}")).split(',').map(|x| x.parse().unwrap()).collect();
        let (ns, nd) = (n[8], n[9]);
        let j = Job { w: n[0], h: n[1], d: [(n[2] as u32, n[3] as u32, n[4] as u32), (n[5] as u32, n[6] as u32, n[7] as u32)],
                      sl: n[10..10 + ns].to_vec(), dl: n[10 + ns..10 + ns + nd].to_vec() };
        sums.push(job(&j, k as u64, steps && k == 0));
    }
    if !first {
        text = describe();
    }
    let again = describe();
    println!("{}\n{}\n{}\n{}\n{}", text, again, sums.join(","), traps(), STEPS.load(Ordering::SeqCst));
}

fn job(j: &Job, seed: u64, steps: bool) -> String {
    let mut rng = Rng::new(seed + 77);
    let mut sb: Vec<Vec<u8>> = j.sl.iter().map(|&l| vec![0; l + 64]).collect();
    let mut db: Vec<Vec<u8>> = j.dl.iter().map(|&l| vec![0; l + 64]).collect();
    for b in &mut sb {
        rng.fill(b);
    }
    let side = |d: (u32, u32, u32), l: &[usize], b: &mut [Vec<u8>]| Side {
        pf: d.0, cs: d.1, np: d.2, strides: None,
        bufs: b.iter_mut().zip(l).map(|(b, &l)| (b.as_mut_ptr(), l)).collect(),
    };
    let (s, d) = (side(j.d[0], &j.sl, &mut sb), side(j.d[1], &j.dl, &mut db));
    let out = stepping(steps, || convert(j.w as u32, j.h as u32, &s, &d));
    let mut x: u64 = 0xcbf2_9ce4_8422_2325;
    for b in &db {
        for &v in b {
            x = (x ^ u64::from(v)).wrapping_mul(0x100_0000_01b3);
        }
    }
    format!("{}:{x:x}", out.name())
}

fn job_text(spec: &Spec, rng: &mut Rng) -> String {
    let c = &spec.convs[rng.below(spec.convs.len())];
    let (w, h) = (2 * (1 + rng.below(60)), 4);
    let l = |d: &crate::model::Desc| lens(d, w, h, &default_strides(d, w));
    let (sl, dl) = (l(&c.src), l(&c.dst));
    let mut n = vec![w, h, c.src.pf as usize, c.src.cs as usize, c.src.np as usize,
                     c.dst.pf as usize, c.dst.cs as usize, c.dst.np as usize, sl.len(), dl.len()];
    n.extend(sl);
    n.extend(dl);
    n.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn run_child(args: &[String]) -> Result<Vec<String>, String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(args).output().unwrap();
    if !o.status.success() {
        return Err(format!("{}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect())
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let mut rng = Rng::new(a.seed ^ 0xc9);
    let jobs: Vec<String> = (0..JOBS).map(|k| format!("job{k}={}", job_text(&spec, &mut rng))).collect();
    // the machine at hand
    let l0 = __cpuid_count(0, 0);
    let l1 = __cpuid_count(1, 0);
    let l7 = if l0.eax >= 7 { __cpuid_count(7, 0).ebx } else { 0 };
    let mut vendor = vec![];
    for w in [l0.ebx, l0.edx, l0.ecx] {
        vendor.extend_from_slice(&w.to_le_bytes());
    }
    let vendor = String::from_utf8_lossy(&vendor).into_owned();
    let osxsave = l1.ecx >> 27 & 1 != 0;
    let ymm = osxsave && unsafe {
        let (lo, _hi): (u32, u32);
        std::arch::asm!("xgetbv", in("ecx") 0, out("eax") lo, out("edx") _hi);
        lo & 6 == 6
    };
    let here = json!({"vendor": vendor, "leaves": if l0.eax >= 31 { 31 } else if l0.eax >= 13 { 13 } else { l0.eax },
                      "sse2": l1.edx >> 26 & 1 != 0, "avx": l1.ecx >> 28 & 1 != 0, "avx2": l7 >> 5 & 1 != 0,
                      "xsave": l1.ecx >> 26 & 1 != 0, "osxsave": osxsave, "ymm": ymm});
    let known = |m: &Value| -> Option<String> {
        spec.raw["machines"].as_array().unwrap().iter().find(|x| {
            ["sse2", "avx", "avx2", "xsave", "osxsave", "ymm"].iter().all(|k| x[*k] == m[*k])
                && x["vendor"] == m["vendor"] && x["leaves"] == m["leaves"]
        }).map(|x| x["description"].as_str().unwrap().to_string())
    };
    // (a vendor the specification does not list is as unknown as any)
    let mut like = here.clone();
    if known(&like).is_none() {
        like["vendor"] = json!("CentaurHauls");
    }
    let mut reference: Option<String> = None;
    // what is told to TLC
    let mut facts = (!a.get("out").is_empty()).then(|| std::fs::File::create(format!("{}.ev", a.get("out"))).unwrap());
    let mut judge = |rep: &mut Report, m: &Value, want: Option<String>, args: &[String]| -> bool {
        current(format_args!("{{\"machine\":{m},\"first\":\"{}\"}}", args.last().unwrap()));
        rep.evaluations += 1;
        match run_child(args) {
            Err(e) => rep.violation("the process did not survive", json!({"status": e})),
            Ok(l) if l.first().is_some_and(|x| x == "no trap") => return false,
            Ok(l) if l.len() < 4 => rep.violation("the process ended early", json!({"output": l})),
            Ok(l) => {
                if let Some(w) = want {
                    if l[0] != w {
                        rep.violation("the machine is described wrongly", json!({"got": l[0], "expected": w}));
                    }
                }
                if l[1] != l[0] {
                    rep.violation("the description changed", json!({"first": l[0], "then": l[1]}));
                }
                let r = reference.get_or_insert_with(|| l[2].clone());
                if *r != l[2] {
                    rep.violation("conversions depend on the machine", json!({"got": l[2], "elsewhere": r, "description": l[0]}));
                }
                if let Some(f) = &mut facts {
                    if known(m).is_some() {
                        writeln!(f, "{}", json!({"e": "machine", "machine": m, "text": l[0], "again": l[1], "images": l[2]})).unwrap();
                    }
                }
                rep.nontrivial += 1;
                rep.sample(|| json!({"machine": m, "description": l[0]}));
            }
        }
        true
    };
    for first in ["describe", "convert"] {
        let mut args = vec!["cpu-child".to_string()];
        args.extend(jobs.iter().cloned());
        args.push(format!("first={first}"));
        judge(&mut rep, &like, known(&like), &args);
    }
    rep.count("the machine at hand", 2);
    let steps = run_child(&["cpu-steps".to_string()]).is_ok_and(|l| l.first().is_some_and(|x| x == "steps"));
    if !steps {
        emit(&json!({"t": "note", "note": "no steps can be made here: other operating systems were not looked at"}));
    }
    let mut played = 0;
    let mut other_os = 0;
    for (n, m) in spec.raw["machines"].as_array().unwrap().iter().enumerate() {
        if n % a.shards != a.shard {
            continue;
        }
        // what the operating system saves is asked by another instruction
        let os = m["osxsave"].as_bool().unwrap();
        let other = m["ymm"].as_bool().unwrap() != (os && ymm) || os && !osxsave;
        if other && !steps {
            continue;
        }
        // what the processor does not have cannot be executed
        if m["set"] == "Avx2" && (here["avx2"] != true || here["avx"] != true) {
            continue;
        }
        for first in ["describe", "convert"] {
            if !a.thorough && (n / a.shards + usize::from(first == "convert")) % 2 == 0 {
                continue;
            }
            let mut has = 0;
            for (k, name) in ["sse2", "avx", "avx2", "xsave", "osxsave"].iter().enumerate() {
                has |= u32::from(m[*name].as_bool().unwrap()) << k;
            }
            let mut args = vec!["cpu-child".to_string(), format!("vendor={}", m["vendor"].as_str().unwrap()),
                                format!("leaves={}", m["leaves"]), format!("has={has}")];
            // (with or without more than what matters)
            let saved = *rng.pick(if m["ymm"] == true { &[7, 0xe7, 0x207, 0x1f] } else { &[3, 3, 0x203, 1] });
            args.push(format!("saved={saved}"));
            // (takes half a second)
            let stepping = steps && (other || a.thorough || rng.one_in(8));
            args.push(format!("steps={}", u8::from(stepping)));
            other_os += u64::from(other);
            args.extend(jobs.iter().cloned());
            args.push(format!("first={first}"));
            let want = m["description"].as_str().unwrap().to_string();
            if !judge(&mut rep, m, Some(want), &args) {
                emit(&json!({"t": "note", "note": "CPUID does not trap here: only the machine at hand was looked at"}));
                rep.finish();
                return;
            }
            played += 1;
        }
    }
    rep.count("machines played", played);
    rep.count("machines with another operating system", other_os);
    rep.finish();
}
