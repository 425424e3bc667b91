//! Executes scenarios (one JSON object per line) against the real code and records what it did.
use crate::util;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::mpsc;
use std::time::Duration;

pub type Dispatch = fn(&Value) -> Value;

fn run_one(s: &Value, dispatch: Dispatch) -> Result<Value, String> {
    let s2 = s.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || dispatch(&s2)));
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".to_string() };
            // preparing the inputs already goes through the code under test: it has to work too
            Err(m)
        }
    }
}

pub fn main(dispatch: Dispatch) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { eprintln!("usage: harness IN OUT [timeout-s]"); std::process::exit(3); }
    let limit: u64 = args.get(3).map(|x| x.parse().unwrap()).unwrap_or(60);
    let inp = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("input"));
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    std::panic::set_hook(Box::new(|_| {}));
    let mut hangs = 0;
    for line in inp.lines() {
        let line = line.expect("line");
        if line.trim().is_empty() { continue; }
        let s: Value = serde_json::from_str(&line).expect("scenario");
        let (tx, rx) = mpsc::channel();
        let s2 = s.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(run_one(&s2, dispatch)); }).expect("thread");
        let mut rec = match s { Value::Object(m) => m, _ => panic!("scenario is not an object") };
        match rx.recv_timeout(Duration::from_secs(limit)) {
            Ok(Ok(Value::Object(o))) => {
                for (k, v) in o { rec.insert(k, v); }
                if !rec.contains_key("res") { rec.insert("res".into(), json!("ok")); }
            }
            Ok(Ok(_)) => unreachable!(),
            Ok(Err(m)) => { rec.insert("res".into(), json!(if m.starts_with("harness:") { "setup" } else { "panic" })); rec.insert("msg".into(), json!(m)); }
            Err(mpsc::RecvTimeoutError::Timeout) => { rec.insert("res".into(), json!("hang")); hangs += 1; }
            Err(_) => { rec.insert("res".into(), json!("panic")); rec.insert("msg".into(), json!("thread died")); }
        }
        serde_json::to_writer(&mut out, &Value::Object(rec)).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
        if hangs >= 2 { std::process::exit(4); }
    }
}
