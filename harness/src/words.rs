//! Words of the formats and observed clocks.
use rinex::marker::{GeodeticMarker, MarkerType};
use rinex::navigation::{NavFrameType, NavMessageType};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use rinex::version::Version;
use serde_json::{json, Value};
use std::str::FromStr;

fn physics(o: &Observable) -> String {
    let is = [
        (o.is_pseudo_range_observable(), "range"),
        (o.is_phase_range_observable(), "phase"),
        (o.is_doppler_observable(), "doppler"),
        (o.is_ssi_observable(), "ssi"),
        (o.is_channel_number(), "channel"),
        (o.is_power_observable(), "power"),
        (matches!(o, Observable::IonosphereDelay(_)), "iono"),
    ];
    let v: Vec<&str> = is.iter().filter(|x| x.0).map(|x| x.1).collect();
    if !v.is_empty() {
        return v.join("+");
    }
    match o {
        Observable::Pressure => "PR",
        Observable::Temperature => "TD",
        Observable::HumidityRate => "HR",
        Observable::ZenithWetDelay => "ZW",
        Observable::ZenithDryDelay => "ZD",
        Observable::ZenithTotalDelay => "ZT",
        Observable::WindDirection => "WD",
        Observable::WindSpeed => "WS",
        Observable::RainIncrement => "RI",
        Observable::HailIndicator => "HI",
        _ => "other",
    }
    .to_string()
}

fn word(w: &Value) -> Value {
    let t = w["text"].as_str().unwrap();
    match w["kind"].as_str().unwrap() {
        "obs" => match Observable::from_str(t) {
            Ok(o) => json!({"means": physics(&o), "prints": o.to_string(), "code": o.code().unwrap_or_default()}),
            Err(_) => Value::Null,
        },
        "snr" => match SNR::from_str(t) {
            Ok(s) => {
                let n = SNR::from(t.parse::<u8>().unwrap());
                json!({"prints": format!("{:x}", s), "same": n == s, "bad": s.bad(), "weak": s.weak(), "strong": s.strong(), "excellent": s.excellent()})
            },
            Err(_) => Value::Null,
        },
        "snrdb" => json!({"means": format!("{:x}", SNR::from(t.parse::<f64>().unwrap() / 10.0))}),
        "flag" => match EpochFlag::from_str(t) {
            Ok(f) => json!({"means": format!("{:?}", f), "prints": f.to_string(), "ok": f.is_ok()}),
            Err(_) => Value::Null,
        },
        "marker" => match MarkerType::from_str(t) {
            Ok(f) => json!({"means": format!("{:?}", f), "prints": f.to_string()}),
            Err(_) => Value::Null,
        },
        "domes" => json!({"prints": GeodeticMarker::default().with_number(t).number()}),
        "carrier" => match Carrier::from_str(t) {
            Ok(f) => json!({"means": f.frequency_mhz(), "hz": f.frequency(), "wl": f.wavelength(), "prints": f.to_string()}),
            Err(_) => Value::Null,
        },
        "glo" => {
            let k = w["k"].as_i64().unwrap() as i8;
            let f = Carrier::from_str(t).unwrap().with_glonass_offset(k);
            json!({"means": f.frequency_mhz(), "hz": f.frequency(), "wl": f.wavelength(), "prints": f.to_string()})
        },
        "msg" => match NavMessageType::from_str(t) {
            Ok(f) => json!({"means": format!("{:?}", f), "prints": f.to_string()}),
            Err(_) => Value::Null,
        },
        "frame" => match NavFrameType::from_str(t) {
            Ok(f) => json!({"means": match f { NavFrameType::Ephemeris => "EPH", NavFrameType::IonosphereModel => "ION",
                NavFrameType::SystemTimeOffset => "STO", NavFrameType::EarthOrientation => "EOP" }, "prints": f.to_string()}),
            Err(_) => Value::Null,
        },
        "version" => match Version::from_str(t) {
            Ok(v) => {
                let mut m = v;
                m -= 2;
                json!({"means": format!("{}.{}", v.major, v.minor), "prints": v.to_string(), "ok": v.is_supported(), "pair": <(u8, u8)>::from(v),
                "new": Version::new(v.major, v.minor) == v, "down": (1..5).map(|k| (v - k).major).collect::<Vec<_>>(), "kept": (v - 1).minor == v.minor && (v + 1).minor == v.minor,
                "less": m.major, "up": (v + 1).major})
            },
            Err(_) => Value::Null,
        },
        k => json!({ "tool_error": k }),
    }
}

/// {words} -> what each one reads to
pub fn op(q: &Value) -> Value {
    let v: Vec<Value> = q["words"]
        .as_array()
        .unwrap()
        .iter()
        .map(|w| match std::panic::catch_unwind(|| word(w)) {
            Ok(v) => v,
            Err(_) => json!({"panic": crate::last_panic()}),
        })
        .collect();
    Value::Array(v)
}

/// {hist: [{at, off}]} -> offsets and drifts of a clock observed again and again
pub fn op_clock(q: &Value) -> Value {
    let mut c = ClockObservation::default();
    let t0 = Epoch::from_gregorian(2022, 3, 4, 5, 6, 7, 0, TimeScale::GPST);
    let v: Vec<Value> = q["hist"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, h)| {
            let t = t0 + Duration::from_seconds(h["at"].as_f64().unwrap());
            let off = h["off"].as_f64().unwrap() * 1e-9;
            if i % 2 == 0 {
                c.set_offset_s(t, off);
            } else {
                c = c.with_offset_s(t, off);
            }
            json!([c.offset_s, c.drift_s_s])
        })
        .collect();
    Value::Array(v)
}
