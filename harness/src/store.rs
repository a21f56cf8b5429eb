//! A data set that is converted, edited, saved and loaded, in a scratch directory.
use crate::{dump, make, names};
use rinex::marker::GeodeticMarker;
use rinex::prelude::*;
use serde_json::{json, Value};
use std::path::PathBuf;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn seen(r: &Rinex) -> Value {
    let mut rec = dump::record(&r.record);
    if let (Some(l), true) = (rec.as_array_mut(), r.is_observation_rinex()) {
        for e in l {
            e["sig"].as_array_mut().unwrap().sort_by_key(|s| s.to_string());
        }
    }
    // what remains of the header, whatever the form of the file
    let mut rest = dump::header(&r.header);
    for k in ["program", "run_by", "date"] {
        rest[k] = Value::Null;
    }
    if r.is_observation_rinex() {
        rest["obs"]["crinex"] = Value::Null;
        rest["marker"]["name"] = Value::Null;
    }
    json!({
        "rest": rest,
        "rec": rec, "crinex": r.header.obs.as_ref().and_then(|o| o.crinex.as_ref()).map(|c| c.version.major),
        "is_crinex": r.header.is_crinex(), "name": r.header.geodetic_marker.as_ref().map(|m| m.name.clone()),
        "prog": r.header.program, "version": [r.header.version.major, r.header.version.minor],
        "is": [r.is_observation_rinex(), r.is_meteo_rinex(), r.is_navigation_rinex(), r.is_clock_rinex(), r.is_antex()],
        "prod": names::attrs(&r.production),
    })
}

/// {data, names: {slot: [file name, gzip]}, ops} -> what is held after each operation, and what the operand of a copy was left with
pub fn op(q: &Value) -> Value {
    let dir = Scratch(std::env::temp_dir().join(format!("rnx-store-{}-{:?}", std::process::id(), std::thread::current().id())));
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let mut r = match make::rinex(&q["data"]) {
        Ok(r) => r,
        Err(e) => return json!({ "error": e }),
    };
    r.header.program = Some("spec".into());
    r.header.comments = vec!["first comment".into(), "second comment".into()];
    r.header.rx_position = Some((4027893.25, 307045.5, -4919475.125));
    r.header.observer = Some("SOMEONE".into());
    r.header.agency = Some("SOME AGENCY".into());
    if let Some(o) = r.header.obs.as_mut() {
        o.timeof_last_obs = Some(make::epoch(&q["last"]));
        o.clock_offset_applied = true;
        if r.header.version.major > 2 {
            for (s, c, k) in [(Constellation::GPS, "C1C", 10), (Constellation::GPS, "L2W", 10), (Constellation::Galileo, "C1C", 100)] {
                o.scaling.insert((s, c.parse().unwrap()), k);
            }
        }
    }
    let named = |h: &Header, n: &str| {
        let mut h = h.clone();
        h.geodetic_marker = Some(GeodeticMarker::default().with_name(n));
        h
    };
    if r.is_observation_rinex() {
        r.header = named(&r.header, q["name"].as_str().unwrap());
    }
    let mut out = vec![json!({"after": seen(&r)})];
    for o in q["ops"].as_array().unwrap() {
        let arg = o["arg"].as_str().unwrap_or_default();
        let slot = &q["names"][o["arg"].to_string()];
        let path = dir.0.join(slot[0].as_str().unwrap_or_default());
        let mut left = Value::Null;
        let mut err = None;
        match (o["op"].as_str().unwrap(), arg) {
            ("compress", "copy") => {
                let c = r.rnx2crnx();
                left = seen(&r);
                r = c;
            },
            ("compress", _) => r.rnx2crnx_mut(),
            ("restore", "copy") => {
                let c = r.crnx2rnx();
                left = seen(&r);
                r = c;
            },
            ("restore", _) => r.crnx2rnx_mut(),
            ("edit", _) => {
                if r.is_observation_rinex() {
                    r.signal_observations_iter_mut().for_each(|(_, s)| s.value += 0.007);
                } else {
                    r.meteo_observations_iter_mut().for_each(|(_, v)| *v += 0.1);
                }
            },
            ("put", how) => {
                let other = match make::rinex(&o["data"]) {
                    Ok(r) => r.record,
                    Err(e) => return json!({ "error": e }),
                };
                if how == "copy" {
                    let c = r.with_record(other);
                    left = seen(&r);
                    r = c;
                } else {
                    r.replace_record(other);
                }
            },
            ("rename", how) => {
                let h = named(&r.header, o["name"].as_str().unwrap());
                if how == "copy" {
                    let c = r.with_header(h);
                    left = seen(&r);
                    r = c;
                } else {
                    r.replace_header(h);
                }
            },
            ("save", _) => {
                let res = if slot[1] == true { r.to_gzip_file(&path) } else { r.to_file(&path) };
                err = res.err().map(|e| e.to_string());
            },
            ("load", _) => match if slot[1] == true { Rinex::from_gzip_file(&path) } else { Rinex::from_file(&path) } {
                Ok(l) => r = l,
                Err(e) => err = Some(e.to_string()),
            },
            (k, _) => return json!({ "tool_error": format!("unknown operation {k}") }),
        }
        let failed = err.is_some();
        out.push(json!({"after": seen(&r), "left": left, "error": err}));
        if failed {
            break;
        }
    }
    json!({ "steps": out })
}
