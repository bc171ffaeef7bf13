//! Records what the two interfaces publish, for validation by TLC
//! (Interfaces.tla): the numbers and names of Rust, and what C and C++
//! programs see that include nothing but the header.
use crate::exec::{CSS, PFS};
use crate::report::Report;
use crate::Args;
use dcv_color_primitives::{ErrorKind, ImageFormat, STRIDE_AUTO};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs::File;
use std::io::Write;
use std::mem::{offset_of, size_of};
use std::path::PathBuf;
use std::process::Command;

const SOURCE: &str = include_str!("../iface.c");
const INCLUDE: &str = "-I/repo/include";
const PF: [&str; 9] = ["argb", "bgra", "bgr", "rgba", "rgb", "i444", "i422", "i420", "nv12"];
const CS: [&str; 5] = ["rgb", "bt601", "bt709", "bt601fr", "bt709fr"];

fn rust(facts: &mut Vec<Value>) {
    let number = |kind: &str, name: &str, n: usize| {
        json!({"e": "number", "of": "rust", "kind": kind, "name": name, "number": n})
    };
    for (k, pf) in PFS.iter().enumerate() {
        facts.push(number("format", PF[k], *pf as usize));
        facts.push(json!({"e": "shown", "kind": "format", "name": PF[k], "text": pf.to_string()}));
    }
    for (k, cs) in CSS.iter().enumerate() {
        facts.push(number("space", CS[k], *cs as usize));
        facts.push(json!({"e": "shown", "kind": "space", "name": CS[k], "text": cs.to_string()}));
    }
    for (name, e) in [("invalid_value", ErrorKind::InvalidValue), ("invalid_operation", ErrorKind::InvalidOperation),
                      ("not_enough_data", ErrorKind::NotEnoughData)] {
        facts.push(json!({"e": "error", "kind": name, "text": e.to_string()}));
        let shown: &dyn std::error::Error = &e;
        facts.push(json!({"e": "error", "kind": name, "text": shown.to_string()}));
        facts.push(number("error", name, e as usize));
    }
    facts.push(number("stride", "auto", STRIDE_AUTO));
    let f = ImageFormat { pixel_format: PFS[0], color_space: CSS[0], num_planes: 1 };
    for (part, at, size) in [
        ("pixel_format", offset_of!(ImageFormat, pixel_format), std::mem::size_of_val(&f.pixel_format)),
        ("color_space", offset_of!(ImageFormat, color_space), std::mem::size_of_val(&f.color_space)),
        ("num_planes", offset_of!(ImageFormat, num_planes), std::mem::size_of_val(&f.num_planes)),
        ("all", 0, size_of::<ImageFormat>()),
    ] {
        facts.push(json!({"e": "layout", "of": "rust", "part": part, "at": at, "size": size}));
    }
}

fn compile(language: &str, more: &[&str], src: &PathBuf, out: &PathBuf) -> bool {
    let (cc, x) = if language.starts_with("c++") { ("g++", "c++") } else { ("gcc", "c") };
    let r = Command::new(cc)
        .args(["-x", x, &format!("-std={language}"), "-pedantic-errors", INCLUDE])
        .args(more)
        .arg("-o").arg(out).arg(src)
        .output()
        .expect("a compiler");
    r.status.success()
}

fn header(dir: &PathBuf, language: &str, facts: &mut Vec<Value>) {
    let src = dir.join("iface.c");
    let exe = dir.join("iface");
    let alone = compile(language, &["-c", "-DALONE"], &src, &exe);
    facts.push(json!({"e": "header", "language": language, "compiles": alone}));
    // (further on, size_t may have been included)
    let first = if alone { vec![] } else { vec!["-include", "stddef.h"] };
    let with = |more: &[&'static str]| [&first[..], more].concat();
    if !compile(language, &with(&["-c", "-DLINK"]), &src, &exe) {
        facts.push(json!({"e": "header", "language": language, "compiles": false, "what": "functions of the published types"}));
        return;
    }
    let nm = Command::new("nm").arg("-u").arg(&exe).output().expect("nm");
    let undefined: HashSet<String> =
        String::from_utf8_lossy(&nm.stdout).lines().map(|l| l.trim_start_matches([' ', 'U']).to_string()).collect();
    if !compile(language, &with(&[]), &src, &exe) {
        facts.push(json!({"e": "header", "language": language, "compiles": false, "what": "a program that uses all names"}));
        return;
    }
    let run = Command::new(&exe).output().expect("the program");
    for l in String::from_utf8_lossy(&run.stdout).lines() {
        let mut f: Value = serde_json::from_str(l).expect("a fact");
        if f["e"] == "function" {
            f["language"] = json!(language);
            f["linkage"] = json!(undefined.contains(f["name"].as_str().unwrap()));
        }
        facts.push(f);
    }
}

pub fn run(a: &Args) {
    let mut rep = Report::new();
    let mut facts = vec![];
    rust(&mut facts);
    let dir = PathBuf::from(format!("{}.dir", a.get("out")));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("iface.c"), SOURCE).unwrap();
    for language in ["c99", "c11", "c17", "c++11", "c++17", "c++20"] {
        header(&dir, language, &mut facts);
        rep.count(language, 1);
    }
    std::fs::remove_dir_all(&dir).unwrap();
    facts.push(json!({"e": "complete"}));
    let mut f = File::create(format!("{}.ev", a.get("out"))).unwrap();
    for x in &facts {
        writeln!(f, "{x}").unwrap();
        rep.evaluations += 1;
        rep.nontrivial += 1;
        rep.sample(|| x.clone());
    }
    rep.finish();
}
