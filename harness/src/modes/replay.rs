//! Plays behaviours that TLC has generated (Behave.tla) with real threads and
//! real memory, and compares what the library leaves behind with what the
//! specification says. Every play is made by a process of its own.
use crate::calls::{child_isas, in_child};
use crate::exec::{convert, describe, sizes, Isa, Out, Side};
use crate::model::{channels, footprint, Desc, Spec};
use crate::report::{current, emit, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

#[derive(Clone, Debug)]
struct PSide {
    pf: u32,
    cs: u32,
    np: u32,
    strides: Option<Vec<usize>>,
    lens: Vec<usize>,
    bufs: Vec<String>,
}

#[derive(Clone, Debug)]
enum PCall {
    Convert { c_api: bool, w: u32, h: u32, src: PSide, dst: PSide },
    Sizes { c_api: bool, w: u32, h: u32, pf: u32, cs: u32, np: u32, slots: usize },
    Describe,
    CDescribe,
    CUnref(String),
}

enum Ev {
    Begin { t: String, n: usize },
    String { t: String, handle: String },
    End { t: String },
}

/// What the specification says about a call
struct Made {
    call: PCall,
    text: Value,
    out: Out,
    sizes: Vec<usize>,
    handle: String,
    /// all of the memory before it began, and what it wrote
    before: Memory,
    after: Memory,
    /// objects that are being written when it is back
    unknown: Vec<String>,
}

type Memory = BTreeMap<String, Vec<u8>>;

struct Behaviour {
    file: String,
    mem: Memory,
    calls: Vec<Made>,
    events: Vec<Ev>,
}

/// What was seen of a call
#[derive(Clone, Debug, Default, PartialEq)]
struct Seen {
    out: u8,
    /// the same call, made again, said something else
    unsteady: bool,
    text: String,
    sizes: Vec<usize>,
    pointer: usize,
    /// the texts of all strings alive then
    alive: Vec<(usize, String)>,
    mem: Memory,
}

fn num(v: &Value) -> u64 {
    v.as_array().unwrap().iter().rev().fold(0, |n, d| n * 1024 + d.as_u64().unwrap())
}

fn nums(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| num(x) as usize).collect()
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

fn text(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn side(v: &Value) -> PSide {
    let n = |k: &str| v[k].as_u64().unwrap() as u32;
    PSide {
        pf: n("pf"), cs: n("cs"), np: num(&v["np"]) as u32,
        strides: v["given"].as_bool().unwrap().then(|| nums(&v["strides"])),
        lens: nums(&v["lens"]),
        bufs: v["bufs"].as_array().unwrap().iter().map(text).collect(),
    }
}

fn load(file: &str) -> Behaviour {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let mut b = Behaviour { file: file.into(), mem: Memory::new(), calls: vec![], events: vec![] };
    let mut now = Memory::new();
    let mut running: BTreeMap<String, usize> = BTreeMap::new();
    for e in v["log"].as_array().unwrap() {
        match e["e"].as_str().unwrap() {
            "mem" => {
                b.mem = e["mem"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), bytes(v))).collect();
                now = b.mem.clone();
            }
            "begin" => {
                let c = &e["call"];
                let n = |k: &str| num(&c[k]) as u32;
                let c_api = c["api"] == "c";
                let call = match c["op"].as_str().unwrap() {
                    "convert" => PCall::Convert { c_api, w: n("w"), h: n("h"), src: side(&c["src"]), dst: side(&c["dst"]) },
                    "sizes" => PCall::Sizes {
                        c_api, w: n("w"), h: n("h"), pf: c["pf"].as_u64().unwrap() as u32,
                        cs: c["cs"].as_u64().unwrap() as u32, np: n("np"), slots: c["slots"].as_u64().unwrap() as usize,
                    },
                    "describe" => PCall::Describe,
                    "c_describe" => PCall::CDescribe,
                    "c_unref" => PCall::CUnref(text(&c["handle"])),
                    x => panic!("call {x}"),
                };
                running.insert(text(&e["t"]), b.calls.len());
                b.events.push(Ev::Begin { t: text(&e["t"]), n: b.calls.len() });
                b.calls.push(Made { call, text: c.clone(), out: Out::Ok, sizes: vec![], handle: String::new(),
                                    before: now.clone(), after: Memory::new(), unknown: vec![] });
            }
            "string" => {
                b.calls[running[e["t"].as_str().unwrap()]].handle = text(&e["handle"]);
                b.events.push(Ev::String { t: text(&e["t"]), handle: text(&e["handle"]) });
            }
            "end" => {
                let n = running.remove(e["t"].as_str().unwrap()).unwrap();
                let r = &e["result"];
                let unknown = running.values().flat_map(|&k| match &b.calls[k].call {
                    PCall::Convert { dst, .. } => dst.bufs.clone(),
                    _ => vec![],
                }).collect();
                let m = &mut b.calls[n];
                m.unknown = unknown;
                m.out = Out::by_name(r["out"].as_str().unwrap());
                if let Some(s) = r.get("sizes") {
                    m.sizes = nums(s);
                }
                for a in e["after"].as_array().unwrap() {
                    m.after.insert(text(&a["b"]), bytes(&a["bytes"]));
                    now.insert(text(&a["b"]), bytes(&a["bytes"]));
                }
                b.events.push(Ev::End { t: text(&e["t"]) });
            }
            x => panic!("event {x}"),
        }
    }
    b
}

// ---- the play -------------------------------------------------------------
const SLACK: usize = 320;

/// The memory objects, somewhere, with room around them
struct Stage {
    places: BTreeMap<String, usize>,
    room: Vec<u8>,
    len: usize,
}

impl Stage {
    fn new(mem: &Memory, rng: &mut Rng) -> Stage {
        let len = mem.values().next().unwrap().len();
        let mut room = vec![0xa7u8; mem.len() * (len + 2 * SLACK) + 64];
        let mut places = BTreeMap::new();
        for (k, (name, data)) in mem.iter().enumerate() {
            let at = k * (len + 2 * SLACK) + SLACK + rng.below(64);
            room[at..at + len].copy_from_slice(data);
            places.insert(name.clone(), at);
        }
        Stage { places, room, len }
    }
    fn at(&self, name: &str) -> *mut u8 {
        unsafe { self.room.as_ptr().cast_mut().add(self.places[name]) }
    }
    fn get(&self, name: &str) -> Vec<u8> {
        (0..self.len).map(|k| unsafe { self.at(name).add(k).read_volatile() }).collect()
    }
    fn set(&self, name: &str, data: &[u8]) {
        for (k, &b) in data.iter().enumerate() {
            unsafe { self.at(name).add(k).write_volatile(b) };
        }
    }
    fn slack_is_clean(&self) -> bool {
        let mut o = 0;
        for &p in self.places.values() {
            if self.room[o..p].iter().any(|&b| b != 0xa7) {
                return false;
            }
            o = p + self.len;
        }
        self.room[o..].iter().all(|&b| b == 0xa7)
    }
    fn side(&self, s: &PSide) -> Side {
        Side { pf: s.pf, cs: s.cs, np: s.np, strides: s.strides.clone(),
               bufs: s.bufs.iter().zip(&s.lens).map(|(b, &l)| (self.at(b), l)).collect() }
    }
}

/// How the calls of a play are made
#[derive(Clone, Copy, PartialEq, Debug)]
enum Door {
    /// as the behaviour says
    Either,
    Rust,
    C,
}

fn can_c() -> bool {
    cfg!(not(feature = "isa"))
}

/// Makes a call that does not concern strings
fn make(call: &PCall, stage: &Stage, door: Door) -> Seen {
    let mut s = Seen::default();
    match call {
        PCall::Convert { c_api, w, h, src, dst } => {
            let (a, b) = (stage.side(src), stage.side(dst));
            s.out = if can_c() && *c_api && door != Door::Rust {
                #[cfg(not(feature = "isa"))]
                {
                    super::crecord::convert_c(*w, *h, &a, &b).0 as u8
                }
                #[cfg(feature = "isa")]
                0
            } else {
                convert(*w, *h, &a, &b) as u8
            };
        }
        PCall::Sizes { c_api, w, h, pf, cs, np, slots } => {
            let mut array: Vec<usize> = (0..*slots).map(|k| 70_000_000 + k).collect();
            s.out = if can_c() && *c_api && door != Door::Rust {
                #[cfg(not(feature = "isa"))]
                {
                    super::crecord::sizes_c(*w, *h, *pf, *cs, *np, None, &mut array) as u8
                }
                #[cfg(feature = "isa")]
                0
            } else {
                sizes(*w, *h, *pf, *cs, *np, None, &mut array) as u8
            };
            s.sizes = array;
        }
        PCall::Describe => s.text = describe(),
        PCall::CDescribe => {
            #[cfg(not(feature = "isa"))]
            {
                s.pointer = crate::exec::c::describe() as usize;
                s.text = at(s.pointer);
            }
            #[cfg(feature = "isa")]
            {
                s.text = describe();
            }
        }
        PCall::CUnref(_) => {}
    }
    s
}

fn at(p: usize) -> String {
    if p == 0 { "(null)".into() } else {
        unsafe { std::ffi::CStr::from_ptr(p as *const _) }.to_string_lossy().into_owned()
    }
}

/// A conversion is made that often, so that calls really are made at a time
const AGAIN: usize = 24;

struct Job {
    call: PCall,
    pointer: usize,
    again: usize,
    go: Arc<AtomicU64>,
    turn: u64,
}

fn worker(stage: Arc<Stage>, door: Door, jobs: Receiver<Job>, done: Sender<Seen>) {
    for j in jobs {
        let mut spun = 0u64;
        while j.go.load(Ordering::Acquire) < j.turn {
            std::hint::spin_loop();
            spun += 1;
            if spun % 20_000 == 0 {
                std::thread::yield_now();
            }
        }
        let s = match j.call {
            PCall::CUnref(_) => {
                #[cfg(not(feature = "isa"))]
                unsafe { crate::exec::c::unref(j.pointer as *mut _) };
                Seen::default()
            }
            PCall::CDescribe => make(&j.call, &stage, door),
            _ => {
                let mut s = make(&j.call, &stage, door);
                for _ in 1..j.again {
                    let n = make(&j.call, &stage, door);
                    s.unsteady |= n.out != s.out || n.text != s.text || n.sizes != s.sizes;
                }
                s
            }
        };
        if done.send(s).is_err() {
            return;
        }
    }
}

/// All of it, with the threads of the behaviour
fn play(b: &Behaviour, seed: u64, threads: bool, door: Door) -> (Vec<Seen>, bool) {
    let stage = Arc::new(Stage::new(&b.mem, &mut Rng::new(seed)));
    let mut seen: Vec<Seen> = vec![Seen::default(); b.calls.len()];
    let mut pointers: BTreeMap<String, usize> = BTreeMap::new();
    let mut running: BTreeMap<String, usize> = BTreeMap::new();
    let go = Arc::new(AtomicU64::new(0));
    let mut turn = 1;
    let mut workers: BTreeMap<String, (Sender<Job>, Receiver<Seen>)> = BTreeMap::new();
    for e in &b.events {
        match e {
            Ev::Begin { t, n } => {
                let call = b.calls[*n].call.clone();
                let pointer = match &call {
                    PCall::CUnref(h) => pointers.remove(h).unwrap_or(0),
                    _ => 0,
                };
                if threads {
                    let (jobs, _) = workers.entry(t.clone()).or_insert_with(|| {
                        let ((js, jr), (ds, dr)) = (channel(), channel());
                        let stage = stage.clone();
                        std::thread::spawn(move || worker(stage, door, jr, ds));
                        (js, dr)
                    });
                    jobs.send(Job { call, pointer, again: AGAIN, go: go.clone(), turn }).unwrap();
                } else {
                    if let PCall::CUnref(_) = call {
                        #[cfg(not(feature = "isa"))]
                        unsafe { crate::exec::c::unref(pointer as *mut _) };
                    } else {
                        seen[*n] = make(&call, &stage, door);
                    }
                }
                running.insert(t.clone(), *n);
            }
            // (it is known when the call is back)
            Ev::String { .. } => {}
            Ev::End { t } => {
                if threads {
                    // everything that has begun goes on at once
                    go.store(turn, Ordering::Release);
                    turn += 1;
                }
                let n = running.remove(t).unwrap();
                if threads {
                    seen[n] = workers[t].1.recv().unwrap_or(Seen { out: Out::Panic as u8, ..Seen::default() });
                }
                let m = &b.calls[n];
                if !m.handle.is_empty() {
                    pointers.insert(m.handle.clone(), seen[n].pointer);
                }
                if can_c() {
                    seen[n].alive = pointers.values().map(|&p| (p, at(p))).collect();
                }
                for name in b.mem.keys().filter(|k| threads && !m.unknown.contains(k) || !threads && writes(m).contains(k)) {
                    seen[n].mem.insert(name.clone(), stage.get(name));
                }
                // the owner of the memory puts right what may be wrong
                for (name, data) in &m.after {
                    stage.set(name, data);
                }
            }
        }
    }
    (seen, stage.slack_is_clean())
}

fn writes(m: &Made) -> &[String] {
    match &m.call {
        PCall::Convert { dst, .. } => &dst.bufs,
        _ => &[],
    }
}

/// The call for itself, as the first of a process
fn alone(b: &Behaviour, n: usize, seed: u64, door: Door) -> Seen {
    let m = &b.calls[n];
    let stage = Stage::new(&m.before, &mut Rng::new(seed));
    let mut s = make(&m.call, &stage, door);
    for name in b.mem.keys() {
        s.mem.insert(name.clone(), stage.get(name));
    }
    s
}

// ---- what is seen, told to the parent ---------------------------------------
fn to_json(s: &Seen) -> Value {
    json!([s.out, s.unsteady, s.text, s.sizes, s.pointer, s.alive, s.mem])
}

fn from_json(v: &Value) -> Seen {
    Seen {
        out: v[0].as_u64().unwrap() as u8,
        unsteady: v[1].as_bool().unwrap(),
        text: text(&v[2]),
        sizes: v[3].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
        pointer: v[4].as_u64().unwrap() as usize,
        alive: v[5].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as usize, text(&x[1]))).collect(),
        mem: v[6].as_object().unwrap().iter().map(|(k, v)| (k.clone(), bytes(v))).collect(),
    }
}

/// Runs `f` in a process of its own
fn elsewhere(file: &str, isa: Isa, f: impl FnOnce() -> Value) -> Result<Value, String> {
    let _ = std::fs::remove_file(file);
    let ended = in_child(150, || {
        isa.select();
        let v = f();
        std::fs::write(file, v.to_string()).unwrap();
    });
    match ended {
        Some(e) => Err(e),
        None => Ok(serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap()),
    }
}

fn playing(b: &Behaviour, a: &Args, isa: Isa, threads: bool, door: Door) -> Result<(Vec<Seen>, bool), String> {
    let seed = a.seed ^ 0x571a6e;
    let v = elsewhere(&format!("{}/seen.{}", a.get("beh"), a.shard), isa, || {
        let (s, clean) = play(b, seed, threads, door);
        json!([s.iter().map(to_json).collect::<Vec<_>>(), clean])
    })?;
    Ok((v[0].as_array().unwrap().iter().map(from_json).collect(), v[1].as_bool().unwrap()))
}

// ---- verdicts -----------------------------------------------------------------
struct Judge<'a> {
    spec: &'a Spec,
    prop: &'a str,
}

impl Judge<'_> {
    fn layout(&self, s: &PSide) -> Option<Desc> {
        self.spec.convs.iter().flat_map(|c| [&c.src, &c.dst]).find(|d| d.pf == s.pf && d.np == s.np).cloned()
    }

    /// Channel numbers of the bytes of the destination's objects
    fn marks(&self, m: &Made) -> Option<(Desc, Memory)> {
        let PCall::Convert { w, h, dst, .. } = &m.call else { return None };
        let d = self.layout(dst)?;
        let mut marks: Vec<Vec<u8>> = dst.bufs.iter().map(|b| vec![0; m.before[b].len()]).collect();
        let strides: Vec<usize> = d.planes.iter().enumerate().map(|(k, p)| {
            let s = dst.strides.as_ref().map_or(0, |s| s[k]);
            if s == 0 { crate::model::packed(p, (*w).into()) as usize } else { s }
        }).collect();
        let mut views: Vec<(&mut [u8], usize)> = marks.iter_mut().zip(strides).map(|(m, s)| (&mut m[..], s)).collect();
        footprint(&d, *w as usize, *h as usize, &mut views);
        Some((d, dst.bufs.iter().cloned().zip(marks).collect()))
    }

    /// What contradicts the specification in what was seen
    fn wrong(&self, m: &Made, s: &Seen, description: &str) -> Option<String> {
        let accepted = s.out == Out::Ok as u8;
        match (self.prop, &m.call) {
            ("C01", PCall::Convert { .. }) => (s.out != m.out as u8)
                .then(|| format!("{} instead of {}", Out::by_number(s.out).name(), m.out.name())),
            ("C19", PCall::Convert { .. } | PCall::Sizes { .. }) =>
                (s.out > Out::NotEnoughData as u8).then(|| format!("ended with {}", Out::by_number(s.out).name())),
            ("C09", PCall::Sizes { .. }) => {
                let mut want: Vec<usize> = (0..s.sizes.len()).map(|k| 70_000_000 + k).collect();
                want[..m.sizes.len()].copy_from_slice(&m.sizes);
                (s.out != m.out as u8 || s.sizes != want)
                    .then(|| format!("{} {:?} instead of {} {want:?}", Out::by_number(s.out).name(), s.sizes, m.out.name()))
            }
            ("C13", PCall::Describe | PCall::CDescribe) => {
                if s.text != description {
                    return Some(format!("the text is {:?} instead of {description:?}", s.text));
                }
                None
            }
            ("C02", _) => {
                let PCall::Convert { w, h, dst, .. } = &m.call else { return None };
                let empty = *w == 0 || *h == 0;
                if accepted && !empty && m.out == Out::NotEnoughData || !accepted && m.out == Out::Ok && s.out == Out::NotEnoughData as u8 {
                    return Some(format!("{} instead of {}", Out::by_number(s.out).name(), m.out.name()));
                }
                for (name, is) in &s.mem {
                    let Some(k) = dst.bufs.iter().position(|b| b == name) else { continue };
                    let was = &m.before[name];
                    let from = if accepted { dst.lens[k] } else { 0 };
                    if let Some(o) = (from..was.len()).find(|&o| is[o] != was[o]) {
                        return Some(format!("byte {o} of {name} changed, of which the call has {}", dst.lens[k]));
                    }
                }
                None
            }
            ("C03", _) => {
                if m.out != Out::Ok && accepted || s.mem.is_empty() {
                    return None;
                }
                let marks = if accepted && matches!(m.call, PCall::Convert { w, h, .. } if w > 0 && h > 0) { self.marks(m)?.1 }
                            else { Memory::new() };
                for (name, is) in &s.mem {
                    // (what other calls have written meanwhile is their business)
                    let was = if writes(m).contains(name) { &m.before[name] } else { continue };
                    let mark = marks.get(name);
                    if let Some(o) = (0..was.len()).find(|&o| is[o] != was[o] && mark.is_none_or(|k| k[o] == 0)) {
                        return Some(format!("byte {o} of {name} changed from {} to {}", was[o], is[o]));
                    }
                }
                None
            }
            ("C04" | "C05" | "C06" | "C07", PCall::Convert { w, h, src, dst, .. }) => {
                if m.out != Out::Ok || !accepted || *w == 0 || *h == 0 {
                    return None;
                }
                let c = self.spec.convs.iter().find(|c| c.src.pf == src.pf && c.src.np == src.np && c.src.cs == src.cs
                                                    && c.dst.pf == dst.pf && c.dst.np == dst.np && c.dst.cs == dst.cs)?;
                let mine: Vec<bool> = c.dst.planes.iter().flatten().flat_map(|a| {
                    let yes = match self.prop {
                        "C04" => c.group == "rgb2yuv" && a.sx == 0,
                        "C05" => c.group == "rgb2yuv" && a.sx == 1,
                        "C06" => c.group == "yuv2rgb",
                        _ => c.group == "rgb2rgb",
                    };
                    a.chan.iter().map(move |n| yes && !n.is_empty())
                }).collect();
                let (d, marks) = self.marks(m)?;
                for (name, mark) in &marks {
                    let (is, want) = (s.mem.get(name)?, &m.after[name]);
                    if let Some(o) = (0..is.len()).find(|&o| mark[o] > 0 && mine[mark[o] as usize - 1] && is[o] != want[o]) {
                        return Some(format!("channel {} at byte {o} of {name} is {} instead of {}",
                                            channels(&d)[mark[o] as usize - 1], is[o], want[o]));
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// What two plays have to agree about
    fn differs(&self, m: &Made, a: &Seen, b: &Seen) -> Option<String> {
        if a.unsteady || b.unsteady {
            return Some("the same call had different outcomes".into());
        }
        if a.out != b.out {
            return Some(format!("{} and {}", Out::by_number(a.out).name(), Out::by_number(b.out).name()));
        }
        if a.text != b.text {
            return Some(format!("{:?} and {:?}", a.text, b.text));
        }
        if a.sizes != b.sizes {
            return Some(format!("{:?} and {:?}", a.sizes, b.sizes));
        }
        // the image, if the call was right to make one
        if m.out != Out::Ok || a.out != Out::Ok as u8 {
            return None;
        }
        if !matches!(m.call, PCall::Convert { w, h, .. } if w > 0 && h > 0) {
            return None;
        }
        let (d, marks) = self.marks(m)?;
        for (name, mark) in &marks {
            let (x, y) = (a.mem.get(name)?, b.mem.get(name)?);
            if let Some(o) = (0..x.len()).find(|&o| mark[o] > 0 && x[o] != y[o]) {
                return Some(format!("channel {} at byte {o} of {name} is {} and {}",
                                    channels(&d)[mark[o] as usize - 1], x[o], y[o]));
            }
        }
        None
    }

    fn strings(&self, m: &Made, s: &Seen, description: &str) -> Option<String> {
        if self.prop != "C13" || !can_c() {
            return None;
        }
        for (k, (p, t)) in s.alive.iter().enumerate() {
            if *p == 0 || t != description {
                return Some(format!("a live string reads {t:?} instead of {description:?}"));
            }
            if s.alive[..k].iter().any(|(q, _)| p == q) {
                return Some("two live strings are the same".into());
            }
        }
        let _ = m;
        None
    }
}

/// Falsifies one fact the property is about, for the check of the check
fn falsify(prop: &str, j: &Judge, m: &Made, s: &Seen) -> Option<Seen> {
    let mut x = s.clone();
    match (prop, &m.call) {
        ("C01" | "C19", PCall::Convert { .. }) => x.out = if prop == "C19" { Out::Panic as u8 } else { (s.out + 1) % 4 },
        ("C09", PCall::Sizes { .. }) if m.out == Out::Ok && !m.sizes.is_empty() => x.sizes[0] ^= 1,
        ("C13", PCall::Describe) => x.text.push('?'),
        ("C02", PCall::Convert { dst, .. }) => {
            let (b, l) = (&dst.bufs[0], dst.lens[0]);
            if l == m.before[b].len() {
                return None;
            }
            x.mem.get_mut(b)?[l] ^= 1;
        }
        ("C03", PCall::Convert { w, h, .. }) if m.out == Out::Ok && *w > 0 && *h > 0 => {
            for (name, mark) in &j.marks(m)?.1 {
                if let Some(o) = mark.iter().rposition(|&k| k == 0) {
                    x.mem.get_mut(name)?[o] ^= 1;
                    return Some(x);
                }
            }
            return None;
        }
        ("C04" | "C05" | "C06" | "C07", PCall::Convert { w, h, .. }) if m.out == Out::Ok && *w > 0 && *h > 0 => {
            for (name, mark) in &j.marks(m)?.1 {
                for o in 0..mark.len() {
                    if mark[o] > 0 {
                        let mut y = s.clone();
                        y.mem.get_mut(name)?[o] ^= 1;
                        if j.wrong(m, &y, "").is_some() {
                            return Some(y);
                        }
                    }
                }
            }
            return None;
        }
        _ => return None,
    }
    Some(x)
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let prop = a.get("prop").to_string();
    let j = Judge { spec: &spec, prop: &prop };
    let mut files: Vec<String> = std::fs::read_dir(a.get("beh")).unwrap()
        .map(|f| f.unwrap().path().to_string_lossy().into_owned()).filter(|f| f.ends_with(".json")).collect();
    files.sort();
    let scratch = format!("{}/seen.{}", a.get("beh"), a.shard);
    let isas = child_isas();
    let mut falsified = 0u64;
    for (k, f) in files.iter().enumerate() {
        let b = load(f);
        let isa = isas[(k + a.shard) % isas.len()];
        let told = |n: usize, how: &str| {
            current(format_args!("{}", json!({"behaviour": f.rsplit('/').next(), "call": n, "isa": isa.name(), "how": how,
                                              "begin": b.calls.get(n).map(|m| &m.text)})));
        };
        let mut plays: Vec<(&str, Vec<Seen>)> = vec![];
        let mut playing = |how: &'static str, isa: Isa, threads: bool, door: Door, rep: &mut Report| {
            match playing(&b, a, isa, threads, door) {
                Ok((s, clean)) => {
                    if !clean && matches!(prop.as_str(), "C02" | "C03") {
                        told(0, how);
                        rep.violation("bytes around the buffers were changed", json!(null));
                    }
                    plays.push((how, s));
                    true
                }
                Err(e) => {
                    // a process that dies is for the properties about that
                    if matches!(prop.as_str(), "C02" | "C14" | "C19" | "C13") {
                        told(0, how);
                        rep.violation(&format!("the process that made the calls {e}"), json!(null));
                    }
                    false
                }
            }
        };
        let ok = match prop.as_str() {
            "C14" => playing("by threads", isa, true, Door::Either, &mut rep),
            "C15" => playing("one after the other", isa, false, Door::Either, &mut rep),
            "C11" => playing("in Rust", isa, false, Door::Rust, &mut rep) && playing("in C", isa, false, Door::C, &mut rep),
            "C08" => isas.iter().all(|&i| playing(i.name(), i, false, Door::Rust, &mut rep)),
            _ => playing("by threads", isa, true, Door::Either, &mut rep),
        };
        if !ok {
            continue;
        }
        let description = elsewhere(&scratch, isa, || json!(describe())).map_or(String::new(), |v| text(&v));
        for (n, m) in b.calls.iter().enumerate() {
            rep.evaluations += 1;
            if m.out == Out::Ok && matches!(m.call, PCall::Convert { w, h, .. } if w > 0 && h > 0) {
                rep.nontrivial += 1;
            }
            if matches!(prop.as_str(), "C14" | "C15") && !matches!(m.call, PCall::CUnref(_)) {
                match elsewhere(&scratch, isa, || to_json(&alone(&b, n, a.seed ^ 0x571a6e, Door::Either))) {
                    Ok(v) => {
                        if let Some(w) = j.differs(m, &plays[0].1[n], &from_json(&v)) {
                            told(n, plays[0].0);
                            rep.violation(&format!("the call among others and the same call alone: {w}"), json!(null));
                        }
                    }
                    Err(_) => continue,
                }
            }
            if matches!(prop.as_str(), "C08" | "C11") && !matches!(m.call, PCall::CUnref(_) | PCall::Describe | PCall::CDescribe) {
                for k in 1..plays.len() {
                    if let Some(w) = j.differs(m, &plays[0].1[n], &plays[k].1[n]) {
                        told(n, plays[k].0);
                        rep.violation(&format!("{} and {}: {w}", plays[0].0, plays[k].0), json!(null));
                    }
                }
            }
            let s = &plays[0].1[n];
            if let Some(w) = j.wrong(m, s, &description).or_else(|| j.strings(m, s, &description)) {
                told(n, plays[0].0);
                rep.violation(&w, json!(null));
            } else if falsified < 40 {
                if let Some(x) = falsify(&prop, &j, m, s) {
                    assert!(j.wrong(m, &x, &description).is_some(), "a falsified fact was accepted");
                    falsified += 1;
                }
            }
        }
        rep.sample(|| json!({"behaviour": f.rsplit('/').next(), "calls": b.calls.len(),
                             "first": b.calls.first().map(|m| m.text.clone())}));
        rep.count("behaviours played", plays.len() as u64);
    }
    rep.count("falsified observations rejected", falsified);
    let _ = std::fs::remove_file(&scratch);
    if files.is_empty() {
        emit(&json!({"t": "note", "what": "no behaviours"}));
        std::process::exit(3);
    }
    rep.finish();
}
