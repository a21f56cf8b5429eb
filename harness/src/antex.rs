//! Antenna lookups.
use crate::{dump, files};
use rinex::antex::AntennaMatcher;
use rinex::prelude::*;
use serde_json::{json, Value};
use std::str::FromStr;

fn carrier(s: &str) -> Carrier {
    match s {
        "L1" => Carrier::L1,
        "L2" => Carrier::L2,
        "L5" => Carrier::L5,
        "L6" => Carrier::L6,
        "G1(None)" => Carrier::G1(None),
        "G2(None)" => Carrier::G2(None),
        "G3" => Carrier::G3,
        "E1" => Carrier::E1,
        "E5a" => Carrier::E5a,
        "E5b" => Carrier::E5b,
        "E5" => Carrier::E5,
        "E6" => Carrier::E6,
        "B1C" => Carrier::B1C,
        "B1I" => Carrier::B1I,
        "B2A" => Carrier::B2A,
        "B2B" => Carrier::B2B,
        "B2" => Carrier::B2,
        "B3" => Carrier::B3,
        "S" => Carrier::S,
        x => panic!("carrier {x}"),
    }
}

/// {text, queries: [{by, id, band, t: [y, m, d, h, mi, s, ns]}]} -> dump and answers
pub fn op(q: &Value) -> Value {
    let rnx = match files::parse(q["text"].as_str().unwrap()) {
        Ok(r) => r,
        Err(e) => return json!({ "error": e }),
    };
    let answers: Vec<_> = q["queries"]
        .as_array()
        .unwrap()
        .iter()
        .map(|a| {
            let t: Vec<u64> = a["t"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let t = Epoch::from_gregorian_utc(
                t[0] as i32, t[1] as u8, t[2] as u8, t[3] as u8, t[4] as u8, t[5] as u8, t[6] as u32,
            );
            let id = a["id"].as_str().unwrap();
            let band = carrier(a["band"].as_str().unwrap());
            let got = match a["by"].as_str().unwrap() {
                "sv" => rnx.sv_antenna_apc_offset(t, SV::from_str(id).unwrap(), band),
                "igs" => rnx.rx_antenna_apc_offset(t, AntennaMatcher::IGSCode(id.to_string()), band),
                _ => rnx.rx_antenna_apc_offset(t, AntennaMatcher::SerialNumber(id.to_string()), band),
            };
            json!([got.map(|(n, e, u)| [n, e, u]), rnx.antex_valid_calibrations(t).count()])
        })
        .collect();
    let mut d = dump::all(&rnx);
    d["answers"] = json!(answers);
    d["browse"] = dump::browse(&rnx);
    d
}
