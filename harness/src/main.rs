//! Conformance harness of the specification in /verif/spec.
#![allow(dead_code)]
mod calls;
mod exec;
mod lay;
mod mem;
mod model;
mod modes;
mod report;
mod rng;

use model::Spec;
use std::collections::HashMap;

pub struct Args {
    pub kv: HashMap<String, String>,
    pub seed: u64,
    pub shard: usize,
    pub shards: usize,
    pub thorough: bool,
}

impl Args {
    pub fn get(&self, k: &str) -> &str {
        self.kv.get(k).map_or("", |s| s)
    }
    pub fn num(&self, k: &str, default: usize) -> usize {
        self.kv.get(k).map_or(default, |s| s.parse().unwrap())
    }
    pub fn spec(&self) -> Spec {
        Spec::load(self.get("spec"))
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let mode = it.next().expect("mode");
    let kv: HashMap<String, String> = it.map(|a| {
        let (k, v) = a.split_once('=').expect("key=value");
        (k.to_string(), v.to_string())
    }).collect();
    let n = |k: &str, d: u64| kv.get(k).map_or(d, |s: &String| s.parse().unwrap());
    let args = Args {
        seed: n("seed", 1),
        shard: n("shard", 0) as usize,
        shards: n("shards", 1) as usize,
        thorough: kv.get("tier").is_some_and(|t| t == "thorough"),
        kv,
    };
    // (children that play another machine have a handler of their own)
    if !mode.ends_with("-child") {
        report::install();
    }
    modes::run(&mode, &args);
}
