//! Values of the language <-> JSON.
use kserd::Number;
use libs::divvy::Str;
use ogma::lang::{Table, Value};
use serde_json::{json, Value as J};
use table::Entry;

/// A whole or dyadic number of moderate size as numerator / denominator, anything else unspecified.
pub fn num(n: &Number) -> J {
    let x = n.as_f64();
    if x.is_finite() {
        let mut d = 1i64;
        let mut y = x;
        for _ in 0..=20 {
            if y.fract() == 0.0 && y.abs() < 1e9 {
                return json!({"t": "Num", "n": y as i64, "d": d});
            }
            y *= 2.0;
            d *= 2;
        }
    }
    json!({"t": "Unk", "s": format!("{x}")})
}
pub fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn uncps(j: &J) -> String {
    match j {
        J::String(s) => s.clone(),
        J::Array(v) => v.iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect(),
        _ => String::new(),
    }
}
pub fn entry(e: &Entry<Value>) -> J {
    match e {
        Entry::Nil => json!({"t": "Nil"}),
        Entry::Num(n) => num(n),
        Entry::Obj(v) => to(v),
    }
}
pub fn to(v: &Value) -> J {
    match v {
        Value::Nil => json!({"t": "Nil"}),
        Value::Bool(b) => json!({"t": "Bool", "b": b}),
        Value::Num(n) => num(n),
        Value::Str(s) => json!({"t": "Str", "s": cps(s)}),
        Value::Tab(t) => json!({"t": "Tab", "r": rows(t)}),
        Value::TabRow(r) => {
            let get = |i| r.table.row(i).map(|x| x.map(entry).collect::<Vec<_>>()).unwrap_or_default();
            json!({"t": "Row", "h": get(0), "r": get(r.idx)})
        }
        Value::Ogma(d) => {
            let n = v.ty().to_string();
            let f: Vec<J> = d.data().iter().map(to).collect();
            if n == "Ord" {
                json!({"t": "Ord", "o": (["lt", "eq", "gt"][d.variant_idx()])})
            } else if n.starts_with("U_") {
                json!({"t": "Tup", "f": f})
            } else {
                json!({"t": "Def", "n": n, "i": d.variant_idx(), "f": f})
            }
        }
    }
}
pub fn rows(t: &Table) -> Vec<Vec<J>> {
    (0..t.rows_len()).map(|i| t.row(i).unwrap().map(entry).collect()).collect()
}
pub fn from(j: &J) -> Value {
    match j["t"].as_str().unwrap_or("Nil") {
        "Bool" => Value::Bool(j["b"].as_bool().unwrap()),
        "Num" => {
            let n = j["n"].as_i64().unwrap();
            let d = j["d"].as_i64().unwrap_or(1);
            Value::Num(if d == 1 {
                if n < 0 { Number::Int(n as i128) } else { Number::Uint(n as u128) }
            } else {
                Number::Float(n as f64 / d as f64)
            })
        }
        "Str" => Value::Str(Str::from(uncps(&j["s"]))),
        "Tab" => Value::Tab(tab(j)),
        _ => Value::Nil,
    }
}
pub fn tab(j: &J) -> Table {
    let rows: Vec<Vec<Entry<Value>>> = j["r"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r.as_array().unwrap().iter().map(|x| from(x).into()).collect())
        .collect();
    Table::from(table::Table::from(rows))
}
