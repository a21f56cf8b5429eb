//! standard file names
use rinex::prelude::*;
use rinex::prod::{DataSource, DetailedProductionAttributes, ProductionAttributes, FFU, PPU};
use serde_json::{json, Value};
use std::str::FromStr;

pub fn attrs(a: &ProductionAttributes) -> Value {
    json!({
        "name": a.name, "y": a.year, "doy": a.doy,
        "region": a.region.map(|c| c.to_string()).unwrap_or_default(),
        "det": a.v3_details.iter().map(|d| json!({
            "batch": d.batch, "country": d.country, "ppu": d.ppu.to_string(),
            "src": match d.data_src { DataSource::Receiver => "R", DataSource::Stream => "S", DataSource::Unknown => "U" },
            "hh": d.hh, "mm": d.mm, "ffu": d.ffu.map(|f| f.to_string()).unwrap_or_default(),
        })).collect::<Vec<_>>(),
    })
}

fn make(a: &Value) -> ProductionAttributes {
    let s = |v: &Value| v.as_str().unwrap().to_string();
    let n = |v: &Value| v.as_u64().unwrap();
    ProductionAttributes {
        name: s(&a["name"]),
        year: n(&a["y"]) as u32,
        doy: n(&a["doy"]) as u32,
        region: s(&a["region"]).chars().next(),
        v3_details: a["det"].as_array().unwrap().first().map(|d| DetailedProductionAttributes {
            country: s(&d["country"]),
            batch: n(&d["batch"]) as u8,
            data_src: match d["src"].as_str().unwrap() {
                "R" => DataSource::Receiver,
                "S" => DataSource::Stream,
                _ => DataSource::Unknown,
            },
            ppu: match d["ppu"].as_str().unwrap() {
                "15M" => PPU::QuarterHour,
                "01H" => PPU::Hourly,
                "01D" => PPU::Daily,
                "01Y" => PPU::Yearly,
                _ => PPU::Unspecified,
            },
            ffu: FFU::from_str(d["ffu"].as_str().unwrap()).ok(),
            hh: n(&d["hh"]) as u8,
            mm: n(&d["mm"]) as u8,
        }),
    }
}

/// {names: [..]}: attributes spelled by each, null when refused
pub fn op_read(q: &Value) -> Value {
    let read = |n: &Value| {
        let name = n.as_str().unwrap().to_string();
        match std::panic::catch_unwind(|| ProductionAttributes::from_str(&name)) {
            Ok(Ok(a)) => attrs(&a),
            Ok(Err(_)) => Value::Null,
            Err(_) => json!({ "panic": crate::last_panic() }),
        }
    };
    json!({ "read": q["names"].as_array().unwrap().iter().map(read).collect::<Vec<_>>() })
}

/// {dir, file, text, custom}: the text is saved as `file` in a directory of its own, read, and named
pub fn op(q: &Value) -> Value {
    let dir = std::path::Path::new(q["dir"].as_str().unwrap());
    std::fs::create_dir_all(dir).unwrap();
    let path = dir.join(q["file"].as_str().unwrap());
    std::fs::write(&path, q["text"].as_str().unwrap()).unwrap();
    let r = Rinex::from_file(&path);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(dir);
    let r = match r {
        Ok(r) => r,
        Err(e) => return json!({ "error": e.to_string() }),
    };
    let c = make(&q["custom"]);
    let g = r.guess_production_attributes();
    json!({
        "prod": attrs(&r.production), "guess": attrs(&g),
        "short": r.standard_filename(true, None, None),
        "long": r.standard_filename(false, None, None),
        "suffixed": r.standard_filename(false, Some(".gz"), None),
        "cshort": r.standard_filename(true, None, Some(c.clone())),
        "clong": r.standard_filename(false, None, Some(c)),
        "gshort": r.standard_filename(true, None, Some(g.clone())),
        "glong": r.standard_filename(false, None, Some(g)),
    })
}
