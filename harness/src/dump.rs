//! Canonical JSON of what the crate holds in memory.
use rinex::antex::AntennaSpecific;
use rinex::navigation::{IonosphereModel, NavFrame, OrbitItem};
use rinex::prelude::obs::{ObsKey, Observations, SignalObservation, SNR};
use rinex::prelude::*;
use serde_json::{json, Map, Value};

pub fn epoch(e: &Epoch) -> Value {
    let (y, m, d, hh, mm, ss, ns) = e.to_gregorian(e.time_scale);
    json!([[y, m, d, hh, mm, ss, ns], format!("{}", e.time_scale)])
}
pub fn opt_epoch(e: &Option<Epoch>) -> Value {
    e.as_ref().map(epoch).unwrap_or(Value::Null)
}
pub fn dur(d: Duration) -> Value {
    json!(d.total_nanoseconds() as i64)
}
pub fn snr(s: &SNR) -> Value {
    json!(*s as u8)
}
pub fn signal(s: &SignalObservation) -> Value {
    json!([
        format!("{:x}", s.sv),
        s.observable.to_string(),
        s.value,
        s.lli.map(|l| l.bits()),
        s.snr.map(|s| s as u8)
    ])
}
pub fn obs(k: &ObsKey, v: &Observations) -> Value {
    json!({
        "t": epoch(&k.epoch),
        "flag": k.flag.to_string(),
        "clk": v.clock.map(|c| c.offset_s),
        "sig": v.signals.iter().map(signal).collect::<Vec<_>>(),
    })
}
fn orbit(i: &OrbitItem) -> Value {
    match i {
        OrbitItem::U8(v) => json!(["u8", v]),
        OrbitItem::I8(v) => json!(["i8", v]),
        OrbitItem::U32(v) => json!(["u32", v]),
        OrbitItem::F64(v) => json!(["f64", v]),
        OrbitItem::Health(h) => json!(["health", h.clone() as u32]),
        OrbitItem::GloHealth(h) => json!(["health", h.clone() as u32]),
        OrbitItem::GeoHealth(h) => json!(["health", h.clone() as u32]),
        OrbitItem::IrnssHealth(h) => json!(["health", h.clone() as u32]),
        OrbitItem::GalHealth(h) => json!(["health", h.bits()]),
        OrbitItem::GloStatus(h) => json!(["status", h.bits()]),
    }
}
fn ion(i: &IonosphereModel) -> Value {
    match i {
        IonosphereModel::Klobuchar(k) => json!({
            "m": "KB",
            "p": [k.alpha.0, k.alpha.1, k.alpha.2, k.alpha.3, k.beta.0, k.beta.1, k.beta.2, k.beta.3],
            "r": format!("{:?}", k.region)}),
        IonosphereModel::NequickG(n) => {
            json!({"m": "NG", "p": [n.a.0, n.a.1, n.a.2], "r": n.region.bits()})
        },
        IonosphereModel::Bdgim(b) => {
            let a = b.alpha;
            json!({"m": "BD", "p": [a.0, a.1, a.2, a.3, a.4, a.5, a.6, a.7, a.8], "r": null})
        },
    }
}
fn frame(f: &NavFrame) -> Value {
    match f {
        NavFrame::EPH(e) => {
            let mut o = Map::new();
            for (k, v) in &e.orbits {
                o.insert(k.clone(), orbit(v));
            }
            json!({"k": "EPH", "clk": [e.clock_bias, e.clock_drift, e.clock_drift_rate], "orb": o})
        },
        NavFrame::EOP(e) => json!({"k": "EOP",
            "p": [e.x.0, e.x.1, e.x.2, e.y.0, e.y.1, e.y.2, e.delta_ut1.0, e.delta_ut1.1, e.delta_ut1.2],
            "t_tm": e.t_tm}),
        NavFrame::ION(i) => json!({"k": "ION", "ion": ion(i)}),
        NavFrame::STO(s) => json!({"k": "STO", "system": s.system, "utc": s.utc, "t_tm": s.t_tm,
            "a": [s.a.0, s.a.1, s.a.2]}),
    }
}

pub fn record(r: &Record) -> Value {
    match r {
        Record::ObsRecord(r) => Value::Array(r.iter().map(|(k, v)| obs(k, v)).collect()),
        Record::MeteoRecord(r) => Value::Array(
            r.iter()
                .map(|(k, v)| json!([epoch(&k.epoch), k.observable.to_string(), v]))
                .collect(),
        ),
        Record::ClockRecord(r) => Value::Array(
            r.iter()
                .flat_map(|(t, m)| {
                    m.iter().map(move |(k, p)| {
                        json!({"t": epoch(t), "type": k.profile_type.to_string(),
                        "kind": if k.clock_type.as_sv().is_some() {"sv"} else {"station"},
                        "name": match k.clock_type.as_sv() {
                            Some(sv) => format!("{:x}", sv),
                            None => k.clock_type.as_station().unwrap_or_default()},
                        "v": [Some(p.bias), p.bias_dev, p.drift, p.drift_dev, p.drift_change, p.drift_change_dev]})
                    })
                })
                .collect(),
        ),
        Record::NavRecord(r) => Value::Array(
            r.iter()
                .map(|(k, f)| {
                    json!({"t": epoch(&k.epoch), "sv": format!("{:x}", k.sv),
                    "msg": k.msgtype.to_string(), "frm": k.frmtype.to_string(), "v": frame(f)})
                })
                .collect(),
        ),
        Record::IonexRecord(r) => Value::Array(
            r.iter()
                .map(|(k, t)| {
                    json!([epoch(&k.epoch), k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(),
                    k.coordinates.altitude_km(), t.tecu(), t.rms_tec()])
                })
                .collect(),
        ),
        Record::AntexRecord(r) => Value::Array(
            r.iter()
                .map(|(a, f)| {
                    let spec = match &a.specific {
                        AntennaSpecific::RxAntenna(x) => {
                            json!({"k": "rx", "igs": x.igs_type, "sn": x.serial_number})
                        },
                        AntennaSpecific::SvAntenna(x) => {
                            json!({"k": "sv", "igs": x.igs_type, "sv": format!("{:x}", x.sv), "cospar": x.cospar.to_string()})
                        },
                    };
                    let mut fr: Vec<_> = f
                        .iter()
                        .map(|(c, d)| {
                            {
                            let rinex::antex::record::AntennaPhasePattern::AzimuthIndependentPattern(p) =
                                &d.phase_pattern;
                            json!([format!("{:?}", c), d.apc_eccentricity.0, d.apc_eccentricity.1, d.apc_eccentricity.2, p])
                        }
                        })
                        .collect();
                    fr.sort_by_key(|v| v.to_string());
                    json!({"spec": spec, "method": format!("{:?}", a.calibration.method),
                    "agency": a.calibration.agency, "date": epoch(&a.calibration.date),
                    "number": a.calibration.number,
                    "valid": a.calibration.validity_period.map(|(s, e)| json!([epoch(&s), epoch(&e)])),
                    "zen": [a.zenith_grid.start, a.zenith_grid.end, a.zenith_grid.spacing],
                    "azi": a.azi_inc, "sinex": a.sinex_code, "freq": fr})
                })
                .collect(),
        ),
        Record::DorisRecord(r) => Value::Array(
            r.iter()
                .map(|(k, o)| {
                    let mut sig: Vec<_> = o
                        .signals
                        .iter()
                        .map(|(k, v)| json!([k.station.label, k.station.to_string(), k.observable.to_string(), v.value, v.m1, v.m2]))
                        .collect();
                    sig.sort_by_key(|v| v.to_string());
                    json!({"t": epoch(&k.epoch), "flag": k.flag.to_string(), "clk": o.clock.offset_s, "drift": o.clock.drift_s_s,
                        "ext": o.clock_extrapolated, "sig": sig})
                })
                .collect(),
        ),
    }
}

fn codes(m: &std::collections::HashMap<Constellation, Vec<Observable>>) -> Value {
    let mut o = Map::new();
    for (c, v) in m {
        o.insert(
            format!("{:x}", c),
            json!(v.iter().map(|o| o.to_string()).collect::<Vec<_>>()),
        );
    }
    Value::Object(o)
}

fn dcbs<K: std::fmt::Debug>(m: &std::collections::HashMap<K, (f64, f64)>) -> Value {
    let mut v: Vec<_> = m.iter().map(|(s, (b, r))| json!([format!("{:?}", s), b, r])).collect();
    v.sort_by_key(|v| v.to_string());
    Value::Array(v)
}

pub fn header(h: &Header) -> Value {
    let mut glo: Vec<_> = h.glo_channels.iter().map(|(s, c)| json!([format!("{:x}", s), c])).collect();
    glo.sort_by_key(|v| v.to_string());
    let mut iono: Vec<_> = h.ionod_corrections.iter().map(|(s, c)| json!([format!("{:x}", s), ion(c)])).collect();
    iono.sort_by_key(|v| v.to_string());
    json!({
        "version": [h.version.major, h.version.minor],
        "type": format!("{:?}", h.rinex_type),
        "constellation": h.constellation.map(|c| format!("{:?}", c)),
        "comments": h.comments, "program": h.program, "run_by": h.run_by, "date": h.date,
        "station_url": h.station_url, "observer": h.observer, "agency": h.agency,
        "marker": h.geodetic_marker.as_ref().map(|m| json!({"name": m.name, "number": m.number(),
            "type": m.marker_type.map(|t| format!("{:?}", t))})),
        "glo": glo, "iono": iono,
        "cospar": h.cospar.as_ref().map(|c| c.to_string()),
        "leap": h.leap.map(|l| json!([l.leap, l.delta_tls, l.week, l.day, l.timescale.map(|t| t.to_string())])),
        "pos": h.rx_position.map(|p| json!([p.0, p.1, p.2])),
        "wavelengths": h.wavelengths.map(|p| json!([p.0, p.1])),
        "interval": h.sampling_interval.map(dur),
        "license": h.license, "doi": h.doi, "gps_utc": h.gps_utc_delta,
        "rcvr": h.rcvr.as_ref().map(|r| json!([r.sn, r.model, r.firmware])),
        "ant": h.rcvr_antenna.as_ref().map(|a| json!({"sn": a.sn, "model": a.model,
            "coords": a.coords.map(|p| json!([p.0, p.1, p.2])), "hen": [a.height, a.eastern, a.northern]})),
        "dcb": h.dcb_compensations.iter().map(|d| json!([format!("{:x}", d.constellation), d.program, d.url])).collect::<Vec<_>>(),
        "pcv": h.pcv_compensations.iter().map(|d| json!([format!("{:x}", d.constellation), d.program, d.url])).collect::<Vec<_>>(),
        "obs": h.obs.as_ref().map(|o| {
            let mut sc: Vec<_> = o.scaling.iter().map(|((c, ob), v)| json!([format!("{:x}", c), ob.to_string(), v])).collect();
            sc.sort_by_key(|v| v.to_string());
            json!({"crinex": o.crinex.as_ref().map(|c| json!([c.version.major, c.version.minor, c.prog, epoch(&c.date)])),
            "first": opt_epoch(&o.timeof_first_obs), "last": opt_epoch(&o.timeof_last_obs),
            "codes": codes(&o.codes), "clk_applied": o.clock_offset_applied, "scaling": sc})}),
        "meteo": h.meteo.as_ref().map(|m| json!({
            "codes": m.codes.iter().map(|o| o.to_string()).collect::<Vec<_>>(),
            "sensors": m.sensors.iter().map(|s| json!({"obs": s.observable.to_string(), "model": s.model,
                "type": s.sensor_type, "acc": s.accuracy, "pos": s.position.map(|p| json!([p.0, p.1, p.2])),
                "h": s.height})).collect::<Vec<_>>()})),
        "clock": h.clock.as_ref().map(|c| json!({"site": c.site, "domes": c.domes.as_ref().map(|d| d.to_string()),
            "igs": c.igs, "full": c.full_name, "ref": c.ref_clock, "ts": c.timescale.map(|t| t.to_string()),
            "codes": c.codes.iter().map(|t| t.to_string()).collect::<Vec<_>>(),
            "work": c.work_clock.iter().map(|w| json!([w.name, w.domes.as_ref().map(|d| d.to_string()), w.constraint])).collect::<Vec<_>>()})),
        "ionex": h.ionex.as_ref().map(|i| json!({"ref": format!("{:?}", i.reference), "model": i.is_theoretical_model(), "maps": i.number_of_maps, "first": epoch(&i.epoch_of_first_map),
            "last": epoch(&i.epoch_of_last_map), "dim": i.map_dimension, "radius": i.base_radius,
            "exponent": i.exponent, "cutoff": i.elevation_cutoff, "stations": i.nb_stations, "sats": i.nb_satellites,
            "observables": i.observables, "description": i.description, "mapping": i.mapping.as_ref().map(|m| format!("{:?}", m)),
            "lat": [i.grid.latitude.start, i.grid.latitude.end, i.grid.latitude.spacing],
            "lon": [i.grid.longitude.start, i.grid.longitude.end, i.grid.longitude.spacing],
            "hgt": [i.grid.height.start, i.grid.height.end, i.grid.height.spacing],
            "dcbs": dcbs(&i.dcbs)})),
        "doris": h.doris.as_ref().map(|d| {
            let mut sc: Vec<_> = d.scaling.iter().map(|(o, f)| json!([o.to_string(), f])).collect();
            sc.sort_by_key(|v| v.to_string());
            json!({"sat": d.satellite, "first": opt_epoch(&d.timeof_first_obs), "codes": d.observables.iter().map(|o| o.to_string()).collect::<Vec<_>>(),
                "scaling": sc, "offset_ns": d.u2_s1_time_offset.total_nanoseconds() as i64,
                "stations": d.stations.iter().map(|s| json!({"text": s.to_string(), "label": s.label, "site": s.site, "domes": s.domes.to_string(),
                    "gen": s.gen, "kf": s.k_factor, "s1": s.s1_frequency_shift(), "u2": s.u2_frequency_shift()})).collect::<Vec<_>>()})}),
        "antex": h.antex.as_ref().map(|a| json!({"pcv": format!("{:?}", a.pcv_type), "ref": a.reference_ant_sn})),
    })
}

pub fn comments(c: &Comments) -> Value {
    Value::Array(c.iter().map(|(k, v)| json!([epoch(k), v])).collect())
}

pub fn all(r: &Rinex) -> Value {
    let mut v = json!({"header": header(&r.header), "record": record(&r.record), "comments": comments(&r.comments)});
    if r.is_ionex() || r.header.ionex.is_some() {
        v["maps"] = maps(r);
    }
    if r.header.doris.is_some() && matches!(r.record, Record::DorisRecord(_)) {
        v["doris"] = doris(r);
    }
    v
}

/// what the queries that apply to every kind of file answer
pub fn browse(r: &Rinex) -> Value {
    let of = |kind: &rinex::prelude::clock::ClockProfileType, p: &rinex::prelude::clock::ClockProfile| json!([kind.to_string(), p.bias, p.bias_dev, p.drift]);
    json!({
        "epochs": r.epoch_iter().map(|t| epoch(&t)).collect::<Vec<_>>(),
        "svs": r.sv_iter().map(|s| format!("{:x}", s)).collect::<Vec<_>>(),
        "constellations": r.constellations_iter().map(|s| format!("{:x}", s)).collect::<Vec<_>>(),
        "observables": r.observables_iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "antennas": r.antennas().count(),
        "is": [r.is_observation_rinex(), r.is_meteo_rinex(), r.is_navigation_rinex(), r.is_clock_rinex(), r.is_ionex(), r.is_antex(), r.is_doris()],
        "clocks": r.precise_clock().map(|(t, m)| json!([epoch(t), m.len()])).collect::<Vec<_>>(),
        "onboard": r.precise_sv_clock().map(|(t, sv, k, p)| json!([epoch(&t), format!("{:x}", sv), of(&k, &p)])).collect::<Vec<_>>(),
        "ground": r.precise_station_clock().map(|(t, n, k, p)| json!([epoch(&t), n, of(&k, &p)])).collect::<Vec<_>>(),
    })
}

/// what the DORIS queries answer
fn doris(r: &Rinex) -> Value {
    let mut sig: Vec<_> = r
        .doris_ground_station_signals_iter()
        .map(|(k, s, v)| json!([epoch(&k.epoch), k.flag.to_string(), s.station.label, s.station.to_string(), s.observable.to_string(), v.value, v.m1, v.m2]))
        .collect();
    sig.sort_by_key(|v| v.to_string());
    json!({
        "is": [r.is_doris(), r.is_observation_rinex(), r.is_meteo_rinex(), r.is_navigation_rinex()],
        "keys": r.doris_observation_keys().map(|k| json!([epoch(&k.epoch), k.flag.to_string()])).collect::<Vec<_>>(),
        "iter": r.doris_observation_iter().map(|(k, o)| json!([epoch(&k.epoch), o.signals.len()])).collect::<Vec<_>>(),
        "epochs": r.epoch_iter().map(|t| epoch(&t)).collect::<Vec<_>>(),
        "clk": r.doris_satellite_clock_offset_iter().map(|(k, c)| json!([epoch(&k.epoch), c.offset_s])).collect::<Vec<_>>(),
        "stations": r.doris_ground_stations_iter().map(|s| s.label.clone()).collect::<Vec<_>>(),
        "sig": sig,
    })
}

/// what the IONEX queries answer
fn maps(r: &Rinex) -> Value {
    let pair = |p: (f64, f64)| json!([p.0, p.1]);
    let place = |k: &rinex::prelude::IonexKey| {
        json!([epoch(&k.epoch), k.coordinates.latitude_ddeg(), k.coordinates.longitude_ddeg(), k.coordinates.altitude_km()])
    };
    json!({
        "is": [r.is_ionex(), r.is_ionex_2d(), r.is_ionex_3d()],
        "not": [r.is_observation_rinex(), r.is_navigation_rinex(), r.is_meteo_rinex(), r.is_clock_rinex(), r.is_antex()],
        "borders": r.tec_map_borders().map(|(a, o)| [pair(a), pair(o)]),
        "fixed": r.ionex_2d_fixed_altitude_km(),
        "altitudes": r.ionex_altitude_range_km().map(pair),
        "keys": r.ionex_tec_maps_keys().map(|k| place(k)).collect::<Vec<_>>(),
        "tecu": r.ionex_tecu_latlong_ddeg_alt_km_iter().map(|(t, a, o, h, v)| json!([epoch(&t), a, o, h, v])).collect::<Vec<_>>(),
        "rms": r.ionex_rms_tec_maps_iter().map(|(k, v)| json!([place(&k), v])).collect::<Vec<_>>(),
        "tec": r.ionex_tec_maps_iter().map(|(k, v)| {
            // the same value built from its TECu
            let mut b = rinex::prelude::TEC::from_tecu(v.tecu());
            if let Some(rms) = v.rms_tec() {
                b = b.with_rms(rms);
            }
            json!([place(&k), v.tecu(), v.rms_tec(), b.tecu(), b.rms_tec()])
        }).collect::<Vec<_>>(),
    })
}
