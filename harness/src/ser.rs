//! Serialization routes.
use serde::{de::DeserializeOwned, Serialize};

/// Serialize and deserialize again.
pub fn roundtrip<T: Serialize + DeserializeOwned>(x: &T, route: &str) -> Result<T, String> {
    match route {
        // through a tree of values: maps, in alphabetical order of the keys
        "value" => serde_json::from_value(serde_json::to_value(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        // through text: maps, in the order of the declaration
        "text" => serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        // through a pretty-printed stream
        "reader" => serde_json::from_reader(std::io::Cursor::new(serde_json::to_vec_pretty(x).map_err(|e| e.to_string())?))
            .map_err(|e| e.to_string()),
        // a compact format in which structs are sequences
        "bincode" => bincode::deserialize(&bincode::serialize(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        _ => panic!("harness: route {route}"),
    }
}

/// Is this damaged form of `x` rejected?  Not if there is nothing to damage, because the form lacks the member in question.
pub fn rejected<T: Serialize + DeserializeOwned>(x: &T, how: &str) -> bool {
    let (what, key) = how.split_once(':').unwrap_or((how, ""));
    let v = serde_json::to_value(x).unwrap();
    match what {
        "trunc" => {
            let b = bincode::serialize(x).unwrap();
            let k: usize = key.parse().unwrap();
            bincode::deserialize::<T>(&b[..b.len() * k / 8]).is_err()
        }
        "empty" => serde_json::from_str::<T>("{}").is_err(),
        "null" if key.is_empty() => serde_json::from_str::<T>("null").is_err(),
        _ => damaged(&v, what, key).is_some_and(|t| serde_json::from_str::<T>(&t).is_err()),
    }
}

/// The text of `v` with the member at the path `key` (names joined by dots) damaged.
fn damaged(v: &serde_json::Value, what: &str, key: &str) -> Option<String> {
    let o = v.as_object()?;
    let (first, rest) = match key.split_once('.') {
        Some((a, b)) => (a, Some(b)),
        None => (key, None),
    };
    o.get(first)?;
    let mut out = Vec::new();
    for (k, x) in o {
        if k != first {
            out.push(format!("\"{k}\":{x}"));
        } else if let Some(rest) = rest {
            out.push(format!("\"{k}\":{}", damaged(x, what, rest)?));
        } else {
            match what {
                "missing" => {}
                "type" => out.push(format!("\"{k}\":\"bad\"")),
                "null" => out.push(format!("\"{k}\":null")),
                "dup" => out.extend([format!("\"{k}\":{x}"), format!("\"{k}\":{x}")]),
                // an array without its last element
                "short" => {
                    let mut a = x.as_array()?.clone();
                    a.pop();
                    out.push(format!("\"{k}\":{}", serde_json::Value::Array(a)));
                }
                _ => panic!("harness: damage {what}"),
            }
        }
    }
    Some(format!("{{{}}}", out.join(",")))
}
