use crate::{dump, make};
use rinex::prelude::*;
use serde_json::{json, Value};

/// {kind, base: epoch, ticks: [ns offsets in insertion order], tol: ns, interval: ns|null}
pub fn op(q: &Value) -> Value {
    let base = make::epoch(&q["base"]);
    let ns = |v: &Value| Duration::from_truncated_nanoseconds(v.as_i64().unwrap());
    let ts: Vec<Epoch> = q["ticks"].as_array().unwrap().iter().map(|t| base + ns(t)).collect();
    let mut h = Header::default();
    if !q["interval"].is_null() {
        h.sampling_interval = Some(ns(&q["interval"]));
    }
    let r = Rinex::new(h, make::epochs(q["kind"].as_str().unwrap(), &ts));
    let off = |e: Epoch| dump::dur(e - base);
    let mut hist: Vec<(i64, usize)> = r
        .sampling_histogram()
        .map(|(d, n)| (d.total_nanoseconds() as i64, n))
        .collect();
    hist.sort();
    let gaps = |t: Option<Duration>| {
        r.data_gaps(t).map(|(e, d)| json!([off(e), dump::dur(d)])).collect::<Vec<_>>()
    };
    let series = r.timeseries().map(|s| s.take(2000).map(off).collect::<Vec<_>>());
    json!({
        "epochs": r.epoch_iter().map(off).collect::<Vec<_>>(),
        "first": r.first_epoch().map(off), "last": r.last_epoch().map(off),
        "duration": r.duration().map(dump::dur),
        "hist": hist,
        "dominant": r.dominant_sampling_interval().map(dump::dur),
        "rate": r.dominant_sampling_rate_hz(),
        "steady": r.steady_sampling(),
        "gaps": gaps(None), "gaps_tol": gaps(Some(ns(&q["tol"]))),
        "series": series,
        "declared": r.sampling_interval().map(dump::dur),
    })
}
