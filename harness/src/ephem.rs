//! What a set of navigation messages answers (E01).
use crate::dump;
use crate::make::epoch;
use anise::constants::frames::IAU_EARTH_FRAME;
use anise::structure::planetocentric::ellipsoid::Ellipsoid;
use rinex::prelude::nav::{Almanac, Orbit};
use rinex::navigation::*;
use rinex::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::str::FromStr;

fn f(v: &Value) -> f64 {
    match v.as_str() {
        Some(s) => s.parse().unwrap(),
        None => v.as_f64().unwrap(),
    }
}

fn ephemeris(v: &Value) -> Ephemeris {
    let mut e = Ephemeris::default();
    e.clock_bias = f(&v["clk"][0]);
    e.clock_drift = f(&v["clk"][1]);
    e.clock_drift_rate = f(&v["clk"][2]);
    for (k, x) in v["orb"].as_object().unwrap() {
        e = e.with_orbit(k, OrbitItem::F64(f(x)));
    }
    if let Some(w) = v["week"].as_u64() {
        e = e.with_week(w as u32);
    }
    e
}

/// messages carry their number in one of their values
fn frame(v: &Value) -> NavFrame {
    let mark = v["mark"].as_f64().unwrap();
    match v["typ"].as_str().unwrap() {
        "EPH" => NavFrame::EPH(ephemeris(v)),
        "KLO" => NavFrame::ION(IonosphereModel::Klobuchar(KbModel { alpha: (mark, 0., 0., 0.), ..Default::default() })),
        "NEQ" => NavFrame::ION(IonosphereModel::NequickG(NgModel { a: (mark, 0., 0.), ..Default::default() })),
        "BDG" => NavFrame::ION(IonosphereModel::Bdgim(BdModel { alpha: (mark, 0., 0., 0., 0., 0., 0., 0., 0.) })),
        "EOP" => NavFrame::EOP(EarthOrientation { x: (mark, 0., 0.), delta_ut1: (f(&v["dut"]), 0., 0.), ..Default::default() }),
        _ => NavFrame::STO(SystemTime { system: "GPUT".into(), utc: "UTC".into(), t_tm: mark as u32, a: (mark, 0., 0.) }),
    }
}

fn kind(v: &Value) -> NavFrameType {
    match v["typ"].as_str().unwrap() {
        "EPH" => NavFrameType::Ephemeris,
        "EOP" => NavFrameType::EarthOrientation,
        "STO" => NavFrameType::SystemTimeOffset,
        _ => NavFrameType::IonosphereModel,
    }
}

fn state(o: &rinex::prelude::nav::Orbit) -> Value {
    let r = o.radius_km;
    let v = o.velocity_km_s;
    json!([[r[0], r[1], r[2]], [v[0], v[1], v[2]], dump::epoch(&o.epoch)])
}

pub fn op(q: &Value) -> Value {
    let mut rec = BTreeMap::new();
    for v in q["msgs"].as_array().unwrap() {
        rec.insert(
            NavKey {
                epoch: epoch(&v["t"]),
                sv: SV::from_str(v["sv"].as_str().unwrap()).unwrap(),
                msgtype: NavMessageType::from_str(v["msg"].as_str().unwrap()).unwrap(),
                frmtype: kind(v),
            },
            frame(v),
        );
    }
    let rnx = Rinex::new(Header::basic_nav(), rinex::prelude::Record::NavRecord(rec));
    let id = |k: &NavKey| json!([dump::epoch(&k.epoch), format!("{:x}", k.sv), k.msgtype.to_string()]);
    let mut sel = Vec::new();
    for x in q["sel"].as_array().unwrap() {
        let sv = SV::from_str(x["sv"].as_str().unwrap()).unwrap();
        let t = epoch(&x["t"]);
        sel.push(json!({
            "sel": rnx.nav_ephemeris_selection(sv, t).map(|(toc, toe, e)| json!([dump::epoch(&toc), dump::epoch(&toe), e.clock_bias])),
            "orbit": rnx.sv_orbit(sv, t).map(|o| state(&o)),
            "pv": rnx.nav_ephemeris_selection(sv, t).and_then(|(toc, _, e)| e.kepler2position_velocity(sv, toc, t)).map(|(p, v)| json!([p.as_slice(), v.as_slice()])),
        }));
    }
    json!({
        "is_nav": rnx.is_navigation_rinex(),
        "keys": rnx.navigation_keys().map(id).collect::<Vec<_>>(),
        "types": rnx.nav_message_types_iter().map(|(t, sv, m)| json!([dump::epoch(&t), format!("{:x}", sv), m.to_string()])).collect::<Vec<_>>(),
        "eph": rnx.nav_ephemeris_frames_iter().map(|(k, e)| json!([id(k), e.clock_bias])).collect::<Vec<_>>(),
        "clk": rnx.nav_sv_clock_iter().map(|(k, c)| json!([id(&k), [c.0, c.1, c.2]])).collect::<Vec<_>>(),
        "eop": rnx.nav_earth_orientation_frames_iter().map(|(k, e)| json!([id(k), e.x.0])).collect::<Vec<_>>(),
        "sto": rnx.nav_system_time_frames_iter().map(|(k, e)| json!([id(k), e.a.0])).collect::<Vec<_>>(),
        "ion": rnx.nav_ionosphere_models_iter().map(|(k, _)| id(k)).collect::<Vec<_>>(),
        "klo": rnx.nav_klobuchar_models_iter().map(|(k, e)| json!([id(k), e.alpha.0])).collect::<Vec<_>>(),
        "neq": rnx.nav_nequickg_models_iter().map(|(k, e)| json!([id(k), e.a.0])).collect::<Vec<_>>(),
        "bdg": rnx.nav_bdgim_models_iter().map(|(k, e)| json!([id(k), e.alpha.0])).collect::<Vec<_>>(),
        "ut1": rnx.nav_delta_tai_ut1_iter().map(|d| json!([dump::epoch(&d.epoch), dump::dur(d.delta_tai_minus_ut1)])).collect::<Vec<_>>(),
        "sel": sel,
    })
}

/// The smallest planetary data that lets positions of different Earth frames be compared:
/// a SPK file whose only segment keeps the Earth at the origin from 1950 to 2050.
fn almanac() -> Almanac {
    let span = 1.6e9_f64;
    let mut b: Vec<u8> = Vec::new();
    let pad = |b: &mut Vec<u8>, n: usize, c: u8| b.resize(n, c);
    b.extend(b"DAF/SPK ");
    b.extend([2u32, 6].iter().flat_map(|x| x.to_le_bytes()));
    b.extend([b' '; 60]);
    b.extend([2u32, 2, 397].iter().flat_map(|x| x.to_le_bytes()));
    b.extend(b"LTL-IEEE");
    pad(&mut b, 1024, 0);
    b.extend([0.0, 0.0, 1.0, -span, span].iter().flat_map(|x: &f64| x.to_le_bytes()));
    b.extend([399i32, 3, 1, 2, 385, 396].iter().flat_map(|x| x.to_le_bytes()));
    pad(&mut b, 2048, 0);
    b.extend(b"EARTH");
    pad(&mut b, 3072, b' ');
    b.extend([0.0, span, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -span, 2.0 * span, 8.0, 1.0].iter().flat_map(|x: &f64| x.to_le_bytes()));
    pad(&mut b, 4096, 0);
    Almanac::default().load_from_bytes(b.into()).unwrap()
}

/// one ephemeris, evaluated at several instants
pub fn op_state(q: &Value) -> Value {
    let sv = SV::from_str(q["sv"].as_str().unwrap()).unwrap();
    let e = ephemeris(q);
    let toc = epoch(&q["toc"]);
    let iter = q["max"].as_u64().unwrap() as usize;
    let toe = sv.timescale().and_then(|ts| e.toe(ts));
    // a data set of this message only, and a station
    let key = NavKey { epoch: toc, sv, msgtype: NavMessageType::LNAV, frmtype: NavFrameType::Ephemeris };
    let rnx = Rinex::new(Header::basic_nav(), rinex::prelude::Record::NavRecord(BTreeMap::from([(key, NavFrame::EPH(e.clone()))])));
    let earth = IAU_EARTH_FRAME.with_mu_km3_s2(398600.4418).with_ellipsoid(Ellipsoid::from_spheroid(6378.137, 6378.137 * (1.0 - 1.0 / 298.257223563)));
    let almanac = almanac();
    let rx = (f(&q["rx"][0]), f(&q["rx"][1]), f(&q["rx"][2]));
    let aer = |x: rinex::prelude::nav::AzElRange| json!([x.azimuth_deg, x.elevation_deg, x.range_km, x.range_rate_km_s, dump::epoch(&x.epoch)]);
    let at = q["ts"].as_array().unwrap().iter().map(|t| {
        let t = epoch(t);
        json!({
            "clk": e.clock_correction(toc, t, sv, iter).map(dump::dur),
            "valid": toe.map(|toe| e.is_valid(sv, t, toe)),
            "orbit": e.kepler2position(sv, toc, t).map(|o| state(&o)),
            "pv": e.kepler2position_velocity(sv, toc, t).map(|(p, v)| json!([p.as_slice(), v.as_slice()])),
            "seen": rnx.nav_azimuth_elevation_range(sv, t, Orbit::from_position(rx.0, rx.1, rx.2, t, earth), &almanac).map(aer),
            "angles": e.kepler2position(sv, toc, t).map(|o| {
                let r = o.radius_km;
                Ephemeris::elevation_azimuth_range(t, &almanac, earth, (r[0], r[1], r[2]), rx).ok().map(aer)
            }),
            "dtr": e.helper(sv, toc, t).map(|h| json!([h.dtr, h.fd_dtr])),
        })
    });
    // the same elements, given through the builders
    let elements = e.kepler().zip(e.perturbations());
    let again = elements.clone().map(|(k, p)| {
        let mut b = Ephemeris::default().with_perturbations(p).with_kepler(k);
        if let Some(w) = q["week"].as_u64() {
            b = b.with_week(w as u32);
        }
        b.kepler2position(sv, toc, epoch(&q["ts"][0])).map(|o| state(&o))
    });
    let elements = elements.map(|(k, p)| {
        json!({"a": k.a, "e": k.e, "i0": k.i_0, "omega0": k.omega_0, "m0": k.m_0, "omega": k.omega, "toe": k.toe, "deltaN": p.dn, "idot": p.i_dot,
               "omegaDot": p.omega_dot, "cus": p.cus, "cuc": p.cuc, "cis": p.cis, "cic": p.cic, "crs": p.crs, "crc": p.crc})
    });
    json!({"elements": elements, "again": again, "toe": toe.map(|t| dump::epoch(&t)), "clock": [e.sv_clock().0, e.sv_clock().1, e.sv_clock().2],
           "tgd": e.tgd().map(dump::dur), "at": at.collect::<Vec<_>>()})
}
