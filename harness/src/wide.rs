//! Very long tables, which repeat a few rows many times: the log keeps one of the rows which, over all the tables of
//! the program, went in the same and came out the same.  What is judged row by row is judged the same.
use crate::sc::Sc;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Mutex;

struct Wide {
    n: usize,
    tables: Vec<Vec<Vec<f64>>>,
}

static WIDE: Mutex<Option<Wide>> = Mutex::new(None);

/// From now on, set tables of n rows aside.
pub fn start(n: Option<u64>) {
    *WIDE.lock().unwrap() = n.map(|n| Wide { n: n as usize, tables: vec![] });
}

/// Sets a table aside, if it is a long one.
pub fn keep<R: Sc>(rows: &[Vec<R>]) -> Option<Value> {
    let mut w = WIDE.lock().unwrap();
    let w = w.as_mut().filter(|w| w.n == rows.len())?;
    w.tables.push(rows.iter().map(|r| r.iter().map(|x| x.to_f64_exactly()).collect()).collect());
    Some(json!({"wide": w.tables.len() - 1}))
}

/// Puts what was kept of the tables into the log.
pub fn finish(events: &mut [Value]) {
    let Some(w) = WIDE.lock().unwrap().take() else { return };
    let mut seen = HashSet::new();
    let kept: Vec<usize> = (0..w.n)
        .filter(|&k| seen.insert(w.tables.iter().flat_map(|t| t[k].iter().map(|x| x.to_bits())).collect::<Vec<u64>>()))
        .collect();
    let put = |v: &mut Value| {
        if let Some(k) = v["rows"]["wide"].as_u64() {
            let t = &w.tables[k as usize];
            v["rows"] = kept.iter().map(|&i| t[i].iter().map(|x| Value::String(x.txt())).collect::<Value>()).collect();
        }
        if v["n"] == json!(w.n) {
            v["n"] = json!(kept.len());
        }
    };
    for ev in events {
        ev.as_object_mut().unwrap().remove("tile");
        put(ev);
        put(&mut ev["r"]);
    }
}
