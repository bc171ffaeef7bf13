#[cfg(not(feature = "isa"))]
pub mod crecord;
#[cfg(not(feature = "isa"))]
mod capi;
mod colors;
mod colossal;
mod cpu;
mod extreme;
mod fidelity;
mod frame;
mod guard;
mod isa;
mod history;
mod layout;
mod marathon;
mod matrix;
#[cfg(not(feature = "isa"))]
mod leak;
mod iface;
mod longrun;
pub mod pairs;
mod race;
pub mod record;
mod replay;
mod suffice;
mod tiles;
mod total;
mod values;
mod vast;

use crate::Args;

pub fn run(mode: &str, a: &Args) {
    match mode {
        "vast" => vast::run(a),
        "values" => values::run(a),
        "frame" => frame::run(a),
        "cpu" => cpu::run(a),
        "cpu-child" => cpu::child(a),
        "cpu-steps" => cpu::step_test(),
        "fidelity" => fidelity::run(a),
        "guard" => guard::run(a),
        "isa" => isa::run(a),
        "matrix" => matrix::run(a),
        "extreme" => extreme::run(a),
        "colossal" => colossal::run(a),
        "layout" => layout::run(a),
        "suffice" => suffice::run(a),
        "total" => total::run(a),
        "history" => history::run(a),
        "longrun" => longrun::run(a),
        "marathon" => marathon::run(a),
        "replay" => replay::run(a),
        "race" => race::run(a),
        "tiles" => tiles::run(a),
        #[cfg(not(feature = "isa"))]
        "capi" => capi::run(a),
        #[cfg(not(feature = "isa"))]
        "leak" => leak::run(a),
        "iface" => iface::run(a),
        "record" => record::run(a),
        _ => panic!("mode {mode}"),
    }
}
