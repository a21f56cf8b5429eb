//! Parsing, formatting and conversions of whole files.
use crate::{dump, make};
use rinex::prelude::*;
use serde_json::{json, Value};
use std::io::{BufReader, BufWriter, Read, Write};

/// a reader that hands out at most `n` bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn parse(text: &str) -> Result<Rinex, String> {
    parse_bytes(text.as_bytes())
}

fn parse_bytes(text: &[u8]) -> Result<Rinex, String> {
    let mut r = BufReader::with_capacity(8192, Slow(text, 8192));
    Rinex::parse(&mut r).map_err(|e| e.to_string())
}

/// text of a file
pub fn format(r: &Rinex) -> Result<String, String> {
    let mut w = BufWriter::new(Vec::new());
    r.format(&mut w).map_err(|e| e.to_string())?;
    w.flush().map_err(|e| e.to_string())?;
    String::from_utf8(w.into_inner().map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}

fn res(r: Result<Value, String>) -> Value {
    r.unwrap_or_else(|e| json!({ "error": e }))
}

/// {text} -> dump
pub fn op_parse(q: &Value) -> Value {
    res(parse(q["text"].as_str().unwrap()).map(|r| {
        let mut v = dump::all(&r);
        if q["browse"] == true {
            v["browse"] = dump::browse(&r);
        }
        if let (Some(places), Some(h)) = (q["near"].as_object(), &r.header.ionex) {
            // grid points next to places of each axis
            let axis = |k: &str| match k {
                "lat" => &h.grid.latitude,
                "lon" => &h.grid.longitude,
                _ => &h.grid.height,
            };
            for (k, xs) in places {
                let next = |x: &Value| axis(k).nearest_lower(x.as_f64().unwrap()).map(|lo| (lo, axis(k).nearest_above(x.as_f64().unwrap())));
                v["near"][k] = xs.as_array().unwrap().iter().map(|x| json!(next(x))).collect();
            }
        }
        v
    }))
}

/// many texts in one request, for truncation sweeps
pub fn op_parse_many(q: &Value) -> Value {
    let header = q["header"] == true;
    let v: Vec<_> = q["texts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            // each character is a byte when all of them fit
            let t = match (t.as_str(), t["latin1"].as_str()) {
                (Some(t), _) => t.as_bytes().to_vec(),
                (_, t) => t.unwrap().chars().map(|c| c as u8).collect(),
            };
            std::panic::catch_unwind(|| res(parse_bytes(&t).map(|r| if header { dump::header(&r.header) } else { dump::record(&r.record) })))
                .unwrap_or_else(|_| json!({"panic": crate::last_panic()}))
        })
        .collect();
    json!({ "many": v })
}

/// {text}|{data} [conv: crnx|rnx] -> text written, and dump of it when read back
pub fn op_roundtrip(q: &Value) -> Value {
    let r = match source(q) {
        Ok(r) => r,
        Err(e) => return json!({ "error": e }),
    };
    let r = match q["conv"].as_str() {
        Some("crnx") => r.rnx2crnx(),
        Some("rnx") => r.crnx2rnx(),
        Some("crnx+rnx") => r.rnx2crnx().crnx2rnx(),
        _ => r,
    };
    let text = match format(&r) {
        Ok(t) => t,
        Err(e) => return json!({ "error": e, "stage": "format" }),
    };
    let back = std::panic::catch_unwind(|| res(parse(&text).map(|r| dump::all(&r))))
        .unwrap_or(json!({"error": "panic on reading back"}));
    json!({"text": text, "back": back, "mem": dump::all(&r)})
}

pub fn source(q: &Value) -> Result<Rinex, String> {
    if let Some(t) = q["text"].as_str() {
        parse(t)
    } else {
        make::rinex(&q["data"])
    }
}
