#![recursion_limit = "512"]
//! Executes requests (one JSON object per line) against the real crate and
//! answers with what was observed. Holds no expected values.
mod antex;
mod dump;
mod ephem;
mod files;
mod kernels;
mod make;
mod names;
mod query;
mod sampling;
mod store;
mod words;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: std::cell::RefCell<String> = Default::default();
}

/// where the last panic came from
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

fn dispatch(req: &Value) -> Value {
    match req["op"].as_str().unwrap_or("") {
        "numdiff" => kernels::numdiff(req),
        "textdiff" => kernels::textdiff(req),
        "decompress" => kernels::decompress(req),
        "parse" => files::op_parse(req),
        "parse_many" => files::op_parse_many(req),
        "roundtrip" => files::op_roundtrip(req),
        "antex" => antex::op(req),
        "query" => query::op(req),
        "query_meteo" => query::op_meteo(req),
        "physics" => query::op_physics(req),
        "combine" => query::op_combine(req),
        "carriers" => query::op_carriers(req),
        "ephem" => ephem::op(req),
        "state" => ephem::op_state(req),
        "store" => store::op(req),
        "sampling" => sampling::op(req),
        "words" => words::op(req),
        "clock" => words::op_clock(req),
        "fname" => names::op(req),
        "fname_read" => names::op_read(req),
        op => json!({ "tool_error": format!("unknown op {op}") }),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or_default(), l.line()));
        let what = info.to_string();
        let what = what.lines().nth(1).unwrap_or_default().to_string();
        LAST.with(|l| *l.borrow_mut() = format!("{} ({})", at.unwrap_or_default(), what.chars().take(100).collect::<String>()));
    }));
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("input"));
    let mut output = BufWriter::new(std::fs::File::create(&args[2]).expect("output"));
    // the crate prints on stdout in places: keep the answers in their own file
    for line in input.lines() {
        let line = line.expect("read");
        let req: Value = serde_json::from_str(&line).expect("json");
        let resp = match catch_unwind(AssertUnwindSafe(|| dispatch(&req))) {
            Ok(v) => v,
            Err(_) => json!({ "panic": last_panic() }),
        };
        writeln!(output, "{}", resp).expect("write");
    }
}
