//! What a worker tells its parent: JSON lines on standard output. Faults of
//! the code under test are results like any other.
use serde_json::{json, Value};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

static mut CURRENT: [u8; 8192] = [0; 8192];
static CURRENT_LEN: AtomicUsize = AtomicUsize::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static QUIET_FAULT: AtomicBool = AtomicBool::new(false);

struct Buf {
    n: usize,
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &b in s.as_bytes() {
            if self.n < 8192 {
                unsafe { CURRENT[self.n] = b };
                self.n += 1;
            }
        }
        Ok(())
    }
}

/// Notes what is about to be called, for the report of a fault or a hang.
/// The text must be JSON.
pub fn current(a: std::fmt::Arguments) {
    let mut b = Buf { n: 0 };
    CURRENT_LEN.store(0, Ordering::SeqCst);
    std::fmt::Write::write_fmt(&mut b, a).unwrap();
    CURRENT_LEN.store(b.n, Ordering::SeqCst);
    STEP.fetch_add(1, Ordering::SeqCst);
}

pub fn current_text() -> String {
    let n = CURRENT_LEN.load(Ordering::SeqCst);
    #[allow(static_mut_refs)]
    unsafe { String::from_utf8_lossy(&CURRENT[..n]).into_owned() }
}

fn raw_write(s: &[u8]) {
    unsafe { libc::write(1, s.as_ptr().cast(), s.len()) };
}

#[allow(static_mut_refs)]
fn raw_report(what: &str) {
    raw_write(b"\n{\"t\":\"violation\",\"what\":\"");
    raw_write(what.as_bytes());
    raw_write(b"\",\"case\":");
    let n = CURRENT_LEN.load(Ordering::SeqCst);
    if n == 0 {
        raw_write(b"null");
    } else {
        unsafe { raw_write(&CURRENT[..n]) };
    }
    raw_write(b"}\n");
}

extern "C" fn on_fault(sig: i32, _info: *mut libc::siginfo_t, _ctx: *mut libc::c_void) {
    if !QUIET_FAULT.load(Ordering::SeqCst) {
        raw_report(match sig {
            libc::SIGSEGV => "the call accessed memory it must not (SIGSEGV)",
            libc::SIGBUS => "the call accessed memory it must not (SIGBUS)",
            libc::SIGILL => "the call executed an illegal instruction (SIGILL)",
            libc::SIGFPE => "the call raised SIGFPE",
            libc::SIGABRT => "the call aborted the process (SIGABRT)",
            libc::SIGALRM => "the call did not return",
            _ => "the call raised a signal",
        });
    }
    unsafe { libc::_exit(17) };
}

/// Processor time that a single call may take, in seconds
static LIMIT: AtomicU64 = AtomicU64::new(120);
/// A child is waited for (which has a limit of its own)
pub static WAITING: AtomicBool = AtomicBool::new(false);
/// Time that a call may take when it waits, in seconds
const PATIENCE: u64 = 600;

/// The calls that follow are that slow
pub fn slow(seconds: u64) {
    LIMIT.store(seconds, Ordering::SeqCst);
}

fn clock(which: libc::clockid_t) -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(which, &mut t);
        t.tv_sec as u64
    }
}

/// (Other processes must not matter: what counts is the time this one had)
extern "C" fn on_alarm(sig: i32, i: *mut libc::siginfo_t, c: *mut libc::c_void) {
    static LAST: AtomicU64 = AtomicU64::new(u64::MAX);
    static SINCE: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
    let s = STEP.load(Ordering::SeqCst);
    let now = [clock(libc::CLOCK_PROCESS_CPUTIME_ID), clock(libc::CLOCK_MONOTONIC)];
    if LAST.swap(s, Ordering::SeqCst) != s {
        SINCE[0].store(now[0], Ordering::SeqCst);
        SINCE[1].store(now[1], Ordering::SeqCst);
    } else if CURRENT_LEN.load(Ordering::SeqCst) != 0
        && !WAITING.load(Ordering::SeqCst)
        && (now[0] - SINCE[0].load(Ordering::SeqCst) > LIMIT.load(Ordering::SeqCst)
            || now[1] - SINCE[1].load(Ordering::SeqCst) > PATIENCE)
    {
        on_fault(sig, i, c);
    }
}

/// Faults only end the process, with status 17
pub fn quiet_faults() {
    QUIET_FAULT.store(true, Ordering::SeqCst);
}

/// Catches faults, aborts, and calls that do not return
pub fn install() {
    unsafe {
        let stack = libc::mmap(std::ptr::null_mut(), 1 << 16, libc::PROT_READ | libc::PROT_WRITE,
                               libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: stack, ss_flags: 0, ss_size: 1 << 16 };
        libc::sigaltstack(&ss, std::ptr::null_mut());
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT, libc::SIGALRM] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) =
                if sig == libc::SIGALRM { on_alarm } else { on_fault };
            sa.sa_sigaction = f as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_RESTART;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 5, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 5, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
    }
    if std::env::var_os("DCPH_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn emit(v: &Value) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "{v}").unwrap();
    o.flush().unwrap();
}

pub struct Report {
    pub evaluations: u64,
    /// cases that were distinct and exercised the property, by kind
    pub nontrivial: u64,
    pub violations: u64,
    pub samples: Vec<Value>,
    pub counts: std::collections::BTreeMap<String, u64>,
}

const MAX_VIOLATIONS: u64 = 8;

impl Report {
    pub fn new() -> Report {
        Report { evaluations: 0, nontrivial: 0, violations: 0, samples: vec![], counts: Default::default() }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn violation(&mut self, what: &str, detail: Value) {
        self.violations += 1;
        let text = current_text();
        let case: Value = serde_json::from_str(&text).unwrap_or(json!(text));
        emit(&json!({"t": "violation", "what": what, "case": case, "detail": detail}));
        if self.violations >= MAX_VIOLATIONS {
            self.finish();
            std::process::exit(0);
        }
    }
    pub fn finish(&self) {
        emit(&json!({"t": "stats", "evaluations": self.evaluations, "nontrivial": self.nontrivial,
                     "violations": self.violations, "samples": self.samples, "counts": self.counts}));
    }
}
