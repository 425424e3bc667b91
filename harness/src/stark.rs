extern crate ff;
extern crate hodor;
extern crate rand;
extern crate serde_json;
extern crate hex;

#[macro_use]
mod util;
mod driver;
mod air;
mod rec;
mod ops_stark;
mod ops_fri;

fn dispatch(s: &serde_json::Value) -> serde_json::Value {
    if util::gs(s, "op") == "fri" { ops_fri::run(s) } else { ops_stark::run(s) }
}

fn main() { driver::main(dispatch) }
