//! Builds in-memory data sets out of JSON, through the public types.
use rinex::navigation::{Ephemeris, NavFrame, NavFrameType, NavKey, NavMessageType};
use rinex::observation::HeaderFields as ObsHeader;
use rinex::meteo::HeaderFields as MetHeader;
use rinex::prelude::clock::{ClockKey, ClockProfile, ClockProfileType, ClockType};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::str::FromStr;

/// [[y,m,d,h,m,s,ns],"GPST"]
pub fn epoch(v: &Value) -> Epoch {
    let f: Vec<i64> = v[0].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let ts = TimeScale::from_str(v[1].as_str().unwrap()).unwrap();
    Epoch::from_gregorian(
        f[0] as i32, f[1] as u8, f[2] as u8, f[3] as u8, f[4] as u8, f[5] as u8, f[6] as u32, ts,
    )
}

pub fn obs_record(v: &Value) -> BTreeMap<ObsKey, Observations> {
    let mut rec = BTreeMap::new();
    for e in v.as_array().unwrap() {
        let epoch = epoch(&e["t"]);
        let flag = EpochFlag::from_str(e["flag"].as_str().unwrap()).unwrap();
        let mut o = Observations::default();
        if let Some(c) = e["clk"].as_f64() {
            o = o.with_clock_offset_s(epoch, c);
        }
        for s in e["sig"].as_array().unwrap() {
            o.signals.push(SignalObservation {
                sv: SV::from_str(s[0].as_str().unwrap()).unwrap(),
                observable: Observable::from_str(s[1].as_str().unwrap()).unwrap(),
                value: s[2].as_f64().unwrap(),
                lli: s[3].as_u64().and_then(|b| LliFlags::from_bits(b as u8)),
                snr: s[4].as_u64().map(|b| SNR::from(b as u8)),
            });
        }
        rec.insert(ObsKey { epoch, flag }, o);
    }
    rec
}

pub fn rinex(d: &Value) -> Result<Rinex, String> {
    let ver = Version::new(d["version"][0].as_u64().unwrap() as u8, d["version"][1].as_u64().unwrap() as u8);
    match d["kind"].as_str().unwrap() {
        "obs" => {
            let mut h = Header::basic_obs().with_version(ver);
            if let Some(c) = d["constellation"].as_str() {
                h = h.with_constellation(Constellation::from_str(c).map_err(|e| format!("{:?}", e))?);
            }
            let mut oh = ObsHeader::default();
            for (c, l) in d["codes"].as_object().unwrap() {
                let c = Constellation::from_str(c).map_err(|e| format!("{:?}", e))?;
                let l = l.as_array().unwrap().iter().map(|s| Observable::from_str(s.as_str().unwrap()).unwrap()).collect();
                oh.codes.insert(c, l);
            }
            if !d["first"].is_null() {
                oh.timeof_first_obs = Some(epoch(&d["first"]));
            }
            if !d["last"].is_null() {
                oh.timeof_last_obs = Some(epoch(&d["last"]));
            }
            h = h.with_observation_fields(oh);
            if let Some(ns) = d["interval"].as_i64() {
                h.sampling_interval = Some(Duration::from_nanoseconds(ns as f64));
            }
            Ok(Rinex::new(h, Record::ObsRecord(obs_record(&d["record"]))))
        },
        "meteo" => {
            let mut h = Header::default().with_version(ver).with_type(RinexType::MeteoData);
            let mut mh = MetHeader::default();
            mh.codes = d["codes"].as_array().unwrap().iter().map(|s| Observable::from_str(s.as_str().unwrap()).unwrap()).collect();
            h.obs = None;
            h.meteo = Some(mh);
            let mut rec = BTreeMap::new();
            for x in d["record"].as_array().unwrap() {
                rec.insert(
                    MeteoKey { epoch: epoch(&x[0]), observable: Observable::from_str(x[1].as_str().unwrap()).unwrap() },
                    x[2].as_f64().unwrap(),
                );
            }
            Ok(Rinex::new(h, Record::MeteoRecord(rec)))
        },
        k => Err(format!("cannot make {k}")),
    }
}

/// a record of the given kind whose epochs are the given ones, in insertion order
pub fn epochs(kind: &str, ts: &[Epoch]) -> Record {
    match kind {
        "obs" => {
            let mut rec = BTreeMap::new();
            for t in ts {
                rec.insert(ObsKey { epoch: *t, flag: EpochFlag::Ok }, Observations::default());
            }
            Record::ObsRecord(rec)
        },
        "meteo" => {
            let mut rec = BTreeMap::new();
            for (i, t) in ts.iter().enumerate() {
                for (j, o) in ["TD", "PR", "HR"].iter().enumerate() {
                    if j == 0 || (i + j) % 2 == 0 {
                        rec.insert(MeteoKey { epoch: *t, observable: Observable::from_str(o).unwrap() }, 1.0);
                    }
                }
            }
            Record::MeteoRecord(rec)
        },
        "clock" => {
            let mut rec = BTreeMap::new();
            for (i, t) in ts.iter().enumerate() {
                let mut inner = BTreeMap::new();
                for p in 0..1 + i % 3 {
                    inner.insert(
                        ClockKey { clock_type: ClockType::SV(SV::new(Constellation::GPS, 1 + p as u8)), profile_type: ClockProfileType::AS },
                        ClockProfile::default(),
                    );
                }
                rec.insert(*t, inner);
            }
            Record::ClockRecord(rec)
        },
        "ionex" => {
            let mut rec = BTreeMap::new();
            for (i, t) in ts.iter().enumerate() {
                for p in 0..1 + i % 3 {
                    rec.insert(
                        IonexKey { epoch: *t, coordinates: QuantizedCoordinates::new(p as f64, 1, 0.0, 1, 450.0, 0) },
                        TEC::from_tecu(1.0),
                    );
                }
            }
            Record::IonexRecord(rec)
        },
        _ => {
            let mut rec = BTreeMap::new();
            for (i, t) in ts.iter().enumerate() {
                let k = NavKey {
                    epoch: *t,
                    sv: SV::new(Constellation::GPS, 1 + (i % 5) as u8),
                    msgtype: NavMessageType::LNAV,
                    frmtype: NavFrameType::Ephemeris,
                };
                rec.insert(k, NavFrame::EPH(Ephemeris::default()));
            }
            Record::NavRecord(rec)
        },
    }
}
