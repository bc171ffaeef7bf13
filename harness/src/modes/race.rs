//! Threads whose first calls meet, and threads that go on calling at the same
//! time: each call has the result it has alone.
use crate::calls::{child_isas, in_child, Call, Shared};
use crate::lay::Pool;
use crate::report::{current, Report};
use crate::rng::Rng;
use crate::Args;
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering};

const THREADS: usize = 8;
/// (of a crowd: they all live at the same time, and make the same call)
const CROWD: usize = 150;
const SLOTS: usize = 512;

struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    fn get(&self) -> &T {
        unsafe { &*self.0 }
    }
}

pub fn run(a: &Args) {
    let spec = a.spec();
    let mut rep = Report::new();
    let pools: Vec<(Pool, Pool)> = (0..CROWD).map(|_| (Pool::new(1 << 16), Pool::new(1 << 16))).collect();
    let shared = Shared::new(SLOTS << 14);
    let isas = child_isas();
    let mut rng = Rng::new(a.seed ^ 0x4ace ^ ((a.shard as u64) << 40));
    let rounds = if a.thorough { 6000 } else { 220 };
    for round in 0..rounds {
        // few long rounds among many short ones
        let long = round % 20 == 19;
        let crowd = round % 44 == 21;
        let threads = if crowd { CROWD - rng.below(60) } else if long { THREADS } else { 2 + rng.below(THREADS - 1) };
        let calls = if crowd { 2 } else if long { 24 } else { 1 + rng.below(3) };
        let isa = isas[round % isas.len()];
        // sometimes everybody does about the same
        let mut proto = Call::any(&mut rng, &spec);
        let alike = rng.one_in(3);
        // and sometimes exactly the same, from the same source
        let common = crowd || rng.one_in(5);
        for _ in 0..20 {
            if common && !matches!(proto, Call::Convert { .. }) {
                proto = Call::any(&mut rng, &spec);
            }
        }
        let plan: Vec<Vec<Call>> = (0..threads).map(|_| (0..calls).map(|_| {
            if common { proto.clone() } else if alike { proto.vary(&mut rng, &spec) } else { Call::any(&mut rng, &spec) }
        }).collect()).collect();
        let repeat = if long { 40 } else { 1 };
        let slow = !long && !crowd && rng.one_in(2);
        let seed = rng.next();
        current(format_args!("{{\"isa\":\"{}\",\"round\":{round},\"threads\":{threads},\"calls\":{calls},\"slow\":{slow},\"same source\":{common}}}", isa.name()));
        shared.clear(SLOTS);
        let end = in_child(150, || {
            if slow {
                super::cpu::slow_cpuid(200_000);
            }
            let met = AtomicUsize::new(0);
            let (met, spec, shared, plan) = (Ptr(&met), Ptr(&spec), Ptr(&shared), Ptr(&plan));
            let (met, spec, shared, plan) = (&met, &spec, &shared, &plan);
            let pools = Ptr(&pools);
            let pools = &pools;
            if isa != crate::exec::Isa::Default && round % 2 == 0 {
                isa.select();
            }
            if common {
                plan.get()[0][0].prepare(spec.get(), &pools.get()[0].0, &pools.get()[0].1, None);
            }
            std::thread::scope(|sc| {
                for t in 0..threads {
                    sc.spawn(move || {
                        let (spec, shared) = (spec.get(), shared.get());
                        let p = (&pools.get()[if common { 0 } else { t }].0, &pools.get()[t].1);
                        if !common {
                            plan.get()[t][0].prepare(spec, p.0, p.1, None);
                        }
                        met.get().fetch_add(1, Ordering::SeqCst);
                        while met.get().load(Ordering::SeqCst) < threads {
                            std::hint::spin_loop();
                            if threads > 2 {
                                std::thread::yield_now();
                            }
                        }
                        for (k, c) in plan.get()[t].iter().enumerate() {
                            let mut first: Option<Vec<u8>> = None;
                            for _ in 0..repeat {
                                if !common {
                                    c.prepare(spec, p.0, p.1, None);
                                }
                                let r = c.make(spec, p.0, p.1, seed, false);
                                // of many the first, or one that differs
                                match &first {
                                    None => {
                                        shared.put(t * calls + k, SLOTS, &r);
                                        first = Some(r);
                                    }
                                    Some(f) => if *f != r {
                                        shared.put(t * calls + k, SLOTS, &r);
                                        break;
                                    }
                                }
                            }
                        }
                    });
                }
            });
        });
        let got: Vec<Option<Vec<u8>>> = (0..threads * calls).map(|k| shared.get(k, SLOTS)).collect();
        for (n, g) in got.iter().enumerate() {
            // (long rounds are compared in part: a process for each call takes its time)
            if long && !common && n % 3 != 0 {
                continue;
            }
            let c = &plan[n / calls][n % calls];
            if !common || n == 0 {
            shared.clear(1);
            let _ = in_child(150, || {
                if isa != crate::exec::Isa::Default && round % 2 == 0 {
                    isa.select();
                }
                let p = &pools[n / calls];
                c.prepare(&spec, &p.0, &p.1, None);
                let r = c.make(&spec, &p.0, &p.1, seed, false);
                shared.put(0, 1, &r);
            });
            }
            let alone = shared.get(0, 1);
            rep.evaluations += 1;
            match (g, &alone) {
                (Some(g), Some(w)) => {
                    let (g, w) = (c.visible(&spec, g), c.visible(&spec, w));
                    rep.nontrivial += 1;
                    if g != w {
                        let o = (0..g.len().min(w.len())).find(|&o| g[o] != w[o]);
                        rep.violation("a call had another result among other threads", json!({
                            "call": c.json(&spec), "thread": n / calls, "number": n % calls,
                            "difference at": o, "outcomes": [g[0], w[0]], "length": [g.len(), w.len()]}));
                        break;
                    }
                }
                (None, Some(_)) => {
                    rep.violation("a call did not return among other threads", json!({
                        "call": c.json(&spec), "thread": n / calls, "number": n % calls, "process": end}));
                    break;
                }
                _ => {}
            }
        }
        if end.as_deref() == Some("did not return") {
            break;
        }
        rep.count(if crowd { "crowds" } else if long { "long rounds" } else { "first-call rounds" }, 1);
        rep.sample(|| json!({"threads": threads, "first calls": plan.iter().map(|p| p[0].json(&spec)).collect::<Vec<_>>()}));
    }
    rep.finish();
}
