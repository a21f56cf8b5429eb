use rinex::hatanaka::{NumDiff, TextDiff};
use serde_json::{json, Value};

fn run<const M: usize>(ops: &[Value], coded: &[i64]) -> Value {
    // coder
    let mut enc: Option<NumDiff<M>> = None;
    let mut out = vec![];
    for op in ops {
        let v = op["v"].as_i64().unwrap();
        if op["k"] == "init" {
            let l = op["l"].as_u64().unwrap() as usize;
            match enc.as_mut() {
                Some(k) => k.force_init(v, l),
                None => enc = Some(NumDiff::<M>::new(v, l)),
            }
            out.push(v);
        } else {
            out.push(enc.as_mut().unwrap().compress(v));
        }
    }
    // decoder, fed with the coded values of the request
    let mut dec: Option<NumDiff<M>> = None;
    let mut back = vec![];
    for (op, c) in ops.iter().zip(coded.iter()) {
        if op["k"] == "init" {
            let l = op["l"].as_u64().unwrap() as usize;
            match dec.as_mut() {
                Some(k) => k.force_init(*c, l),
                None => dec = Some(NumDiff::<M>::new(*c, l)),
            }
            back.push(*c);
        } else {
            back.push(dec.as_mut().unwrap().decompress(*c));
        }
    }
    json!({"coded": out, "decoded": back})
}

pub fn numdiff(req: &Value) -> Value {
    let ops = req["ops"].as_array().unwrap();
    let coded: Vec<i64> = req["coded"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| v.as_i64().unwrap())
        .collect();
    match req["m"].as_u64().unwrap() {
        1 => run::<1>(ops, &coded),
        2 => run::<2>(ops, &coded),
        3 => run::<3>(ops, &coded),
        4 => run::<4>(ops, &coded),
        5 => run::<5>(ops, &coded),
        6 => run::<6>(ops, &coded),
        7 => run::<7>(ops, &coded),
        8 => run::<8>(ops, &coded),
        m => json!({ "tool_error": format!("capacity {m}") }),
    }
}

/// ops: {k: init|text, v: string}; coded: strings to decode
pub fn textdiff(req: &Value) -> Value {
    let ops = req["ops"].as_array().unwrap();
    let coded = req["coded"].as_array().unwrap();
    let mut enc: Option<TextDiff> = None;
    let mut out = vec![];
    for op in ops {
        let v = op["v"].as_str().unwrap();
        if op["k"] == "init" {
            match enc.as_mut() {
                Some(k) => k.force_init(v),
                None => enc = Some(TextDiff::new(v)),
            }
            out.push(v.to_string());
        } else {
            out.push(enc.as_mut().unwrap().compress(v).to_string());
        }
    }
    let mut dec: Option<TextDiff> = None;
    let mut back = vec![];
    for (op, c) in ops.iter().zip(coded.iter()) {
        let c = c.as_str().unwrap();
        if op["k"] == "init" {
            match dec.as_mut() {
                Some(k) => k.force_init(c),
                None => dec = Some(TextDiff::new(c)),
            }
            back.push(c.to_string());
        } else {
            back.push(dec.as_mut().unwrap().decompress(c).to_string());
        }
    }
    json!({"coded": out, "decoded": back})
}

/// {v3, constellation, codes, lines} -> what the streaming decompressor produces for each line
pub fn decompress(q: &Value) -> Value {
    use rinex::prelude::*;
    use std::str::FromStr;
    let constellation = |s: &str| Constellation::from_str(s).unwrap();
    let mut codes = std::collections::HashMap::new();
    for (c, l) in q["codes"].as_object().unwrap() {
        let l: Vec<Observable> =
            l.as_array().unwrap().iter().map(|s| Observable::from_str(s.as_str().unwrap()).unwrap()).collect();
        codes.insert(constellation(c), l);
    }
    let mut d = Decompressor::new(q["v3"].as_bool().unwrap(), constellation(q["constellation"].as_str().unwrap()), codes);
    let mut buf = vec![0u8; q["size"].as_u64().unwrap_or(8192) as usize];
    let mut out = vec![];
    for l in q["lines"].as_array().unwrap() {
        let l = l.as_str().unwrap();
        let size = buf.len();
        match d.decompress(l, l.len(), &mut buf, size) {
            Ok(n) => out.push(json!(String::from_utf8_lossy(&buf[..n]))),
            Err(e) => {
                out.push(json!({"error": e.to_string()}));
                break;
            },
        }
    }
    json!({ "out": out })
}
