extern crate ff;
extern crate hodor;
extern crate rand;
extern crate serde_json;
extern crate hex;

#[macro_use]
mod util;
mod driver;
mod ops_num;

fn dispatch(s: &serde_json::Value) -> serde_json::Value {
    ops_num::run(s)
}

fn main() { driver::main(dispatch) }
