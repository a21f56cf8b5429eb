//! Differences and queries of observation data sets.
use crate::{dump, make};
use rinex::prelude::obs::*;
use rinex::prelude::*;
use serde_json::{json, Value};
use std::str::FromStr;

fn keyed<'a>(it: Box<dyn Iterator<Item = (ObsKey, &'a SignalObservation)> + 'a>) -> Value {
    Value::Array(it.map(|(k, s)| json!([dump::epoch(&k.epoch), k.flag.to_string(), dump::signal(s)])).collect())
}

fn timed<'a>(it: Box<dyn Iterator<Item = (Epoch, &'a SignalObservation)> + 'a>) -> Value {
    Value::Array(it.map(|(t, s)| json!([dump::epoch(&t), dump::signal(s)])).collect())
}

/// {a, b, mask} data sets -> difference a - b and what the queries of a return
pub fn op(q: &Value) -> Value {
    let (a, b) = match (make::rinex(&q["a"]), make::rinex(&q["b"])) {
        (Ok(a), Ok(b)) => (a, b),
        (e, f) => return json!({"error": format!("{:?} {:?}", e.err(), f.err())}),
    };
    let diff = a.observation_substract(&b);
    let mut mutated = a.clone();
    mutated.observation_substract_mut(&b);
    let mask = LliFlags::from_bits(q["mask"].as_u64().unwrap() as u8).unwrap();
    let masked = a.observation_phase_tracking_lli_masking(mask);
    let mut raised = a.clone();
    raised.observations_iter_mut().for_each(|(_, o)| o.signals.reverse());
    raised.signal_observations_iter_mut().for_each(|(_, s)| s.value += 0.007);
    raised.clock_observations_iter_mut().for_each(|(_, c)| c.offset_s -= 3e-9);
    let listed = |it: &dyn Fn(&SignalObservation) -> bool| -> Value {
        Value::Array(a.signal_observations_iter().filter(|(_, s)| it(s)).map(|(k, s)| json!([dump::epoch(&k.epoch), k.flag.to_string(), dump::signal(s)])).collect())
    };
    json!({
        "raised": dump::record(&raised.record),
        "keys": a.observation_keys().map(|k| json!([dump::epoch(&k.epoch), k.flag.to_string()])).collect::<Vec<_>>(),
        "sizes": a.observations_iter().map(|(_, o)| o.signals.len()).collect::<Vec<_>>(),
        "good": listed(&|s| s.clone().is_ok()),
        "goodfrom": (1..10u8).map(|k| listed(&|s| s.is_ok_snr(SNR::from(k)))).collect::<Vec<_>>(),
        "diff": dump::record(&diff.record),
        "mutated": dump::record(&mutated.record),
        "left": dump::record(&a.record),
        "masked": dump::record(&masked.record),
        "all": keyed(a.signal_observations_iter()),
        "range": keyed(a.pseudo_range_observations_iter()),
        "phase": keyed(a.phase_range_observations_iter()),
        "doppler": keyed(a.doppler_observations_iter()),
        "strength": keyed(a.ssi_observations_iter()),
        "ok": timed(a.signal_observations_sampling_ok_iter()),
        "okrange": timed(a.pseudo_range_sampling_ok_iter()),
        "okphase": timed(a.phase_range_sampling_ok_iter()),
        "tracked": timed(a.phase_range_tracking_ok_iter()),
        "slip": keyed(a.phase_cycle_slip_events()),
        "halfslip": keyed(a.phase_half_full_cycle_slip_events()),
        "anomalies": a.epoch_anomalies().map(|k| json!([dump::epoch(&k.epoch), k.flag.to_string()])).collect::<Vec<_>>(),
        "clocks": a.clock_observations_iter().map(|(k, c)| json!([dump::epoch(&k.epoch), k.flag.to_string(), c.offset_s])).collect::<Vec<_>>(),
        "epochs": a.epoch_iter().map(|t| dump::epoch(&t)).collect::<Vec<_>>(),
        "svs": a.sv_iter().map(|s| format!("{:x}", s)).collect::<Vec<_>>(),
        "constellations": a.constellations_iter().map(|s| format!("{:x}", s)).collect::<Vec<_>>(),
        "codes": a.observables_iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "signals": a.signal_code_iter().collect::<Vec<_>>(),
    })
}

/// {a, b} meteo data sets -> difference and queries
pub fn op_meteo(q: &Value) -> Value {
    let (a, b) = match (make::rinex(&q["a"]), make::rinex(&q["b"])) {
        (Ok(a), Ok(b)) => (a, b),
        (e, f) => return json!({"error": format!("{:?} {:?}", e.err(), f.err())}),
    };
    let by = |it: Box<dyn Iterator<Item = (Epoch, f64)> + '_>| -> Value { Value::Array(it.map(|(t, v)| json!([dump::epoch(&t), v])).collect()) };
    json!({
        "diff": dump::record(&a.observation_substract(&b).record),
        "epochs": a.epoch_iter().map(|t| dump::epoch(&t)).collect::<Vec<_>>(),
        "codes": a.observables_iter().map(|s| s.to_string()).collect::<Vec<_>>(),
        "by": {"TD": by(a.temperature_iter()), "PR": by(a.pressure_iter()), "HR": by(a.moisture_rate_iter()), "WS": by(a.wind_speed_iter()),
               "WD": by(a.wind_direction_iter()), "RI": by(a.accumulated_rain_iter()), "ZT": by(a.zenith_total_delay_iter()),
               "ZD": by(a.zenith_dry_delay_iter()), "ZW": by(a.zenith_wet_delay_iter())},
        "total": a.total_accumulated_rain(), "rain": a.rain_detected(), "hail": a.hail_detected(),
        "all": a.meteo_observations_iter().map(|(k, v)| json!([dump::epoch(&k.epoch), k.observable.to_string(), v])).collect::<Vec<_>>(),
    })
}

/// {codes} -> which pairs are of the same physics
pub fn op_physics(q: &Value) -> Value {
    let c: Vec<_> = q["codes"].as_array().unwrap().iter().map(|s| Observable::from_str(s.as_str().unwrap()).unwrap()).collect();
    json!({"same": c.iter().map(|a| c.iter().map(|b| a.same_physics(b)).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

/// {a} an observation data set -> its combinations, carriers and signals
pub fn op_combine(q: &Value) -> Value {
    let a = match make::rinex(&q["a"]) {
        Ok(a) => a,
        Err(e) => return json!({ "error": e }),
    };
    let of = |c: Combination| -> Value {
        Value::Array(
            a.signals_combination(c)
                .iter()
                .map(|(k, v)| json!([dump::epoch(&k.epoch), k.flag.to_string(), format!("{:x}", k.sv), k.lhs.to_string(), k.reference.to_string(), num(*v)]))
                .collect(),
        )
    };
    json!({
        "gf": of(Combination::GeometryFree), "if": of(Combination::IonosphereFree), "wl": of(Combination::WideLane),
        "nl": of(Combination::NarrowLane), "mw": of(Combination::MelbourneWubbena),
        "multipath": a.signals_multipath().iter()
            .map(|(k, v)| json!([dump::epoch(&k.epoch), format!("{:x}", k.sv), k.signal.to_string(), k.rhs.to_string(), num(*v)])).sorted(),
        "tec": a.observation_dual_phase_ionosphere_tec().iter()
            .map(|(k, v)| json!([dump::epoch(&k.epoch), format!("{:x}", k.sv), k.reference.to_string(), k.rhs.to_string(), num(v.tec())])).sorted(),
        "carriers": a.carrier_iter().map(|c| [c.frequency(), c.wavelength()]).collect::<Vec<_>>(),
        "suffixes": a.signal_code_iter().collect::<Vec<_>>(),
    })
}

/// {codes: [[system, code]]} -> [frequency, in MHz, wavelength, suffix], null when unknown
pub fn op_carriers(q: &Value) -> Value {
    Value::Array(
        q["codes"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| {
                let c = Constellation::from_str(x[0].as_str().unwrap()).unwrap();
                match Observable::from_str(x[1].as_str().unwrap()) {
                    Ok(o) => match o.carrier(c) {
                        Ok(f) => json!([f.frequency(), f.frequency_mhz(), f.wavelength(), o.code()]),
                        Err(_) => Value::Null,
                    },
                    Err(e) => json!(format!("{:?}", e)),
                }
            })
            .collect(),
    )
}

fn num(v: f64) -> Value {
    if v.is_finite() { json!(v) } else { json!(v.to_string()) }
}

/// hash maps come in any order
trait Sorted {
    fn sorted(self) -> Vec<Value>;
}

impl<I: Iterator<Item = Value>> Sorted for I {
    fn sorted(self) -> Vec<Value> {
        let mut v: Vec<Value> = self.collect();
        v.sort_by_cached_key(|x| x.to_string());
        v
    }
}
