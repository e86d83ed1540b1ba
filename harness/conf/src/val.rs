//! The form in which values are exchanged with the specification: `[kind, payload]`.
use serde_json::{json, Value as J};
use sourisdb::{
    chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike},
    chrono_tz::Tz,
    hashbrown::HashMap,
    store::Store,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::str::FromStr;

pub fn cps(s: &str) -> J {
    J::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn text(j: &J) -> String {
    j.as_array()
        .expect("text")
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).expect("code point"))
        .collect()
}
pub fn bytes(j: &J) -> Vec<u8> {
    j.as_array()
        .expect("bytes")
        .iter()
        .map(|b| b.as_u64().unwrap() as u8)
        .collect()
}
pub fn trim(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}
/// `[negative, magnitude little endian]`
pub fn num_i(i: i128) -> J {
    json!([u8::from(i < 0), trim(&i.unsigned_abs().to_le_bytes())])
}
pub fn num_u(i: u128) -> J {
    json!([0, trim(&i.to_le_bytes())])
}
pub fn mag(j: &J) -> u128 {
    let mut b = bytes(j);
    b.resize(16, 0);
    u128::from_le_bytes(b.try_into().unwrap())
}
pub fn int_out(i: Integer) -> J {
    if let Ok(x) = i128::try_from(i) {
        num_i(x)
    } else if let Ok(x) = u128::try_from(i) {
        num_u(x)
    } else {
        let s = i.to_string();
        if let Ok(x) = s.parse::<u128>() {
            num_u(x)
        } else if let Ok(x) = s.parse::<i128>() {
            num_i(x)
        } else {
            json!([2, s])
        }
    }
}
/// `[negative, magnitude, "u8" ...]`: made from that native type; without one from a wide type
pub fn int_in(j: &J) -> Integer {
    let neg = j[0].as_u64().unwrap() == 1;
    let m = mag(&j[1]);
    let as_i = || {
        if neg {
            (m as i128).wrapping_neg()
        } else {
            m as i128
        }
    };
    match j.get(2).and_then(J::as_str).unwrap_or(if neg { "i128" } else { "u128" }) {
        "u8" => Integer::from(m as u8),
        "u16" => Integer::from(m as u16),
        "u32" => Integer::from(m as u32),
        "u64" => Integer::from(m as u64),
        "usize" => Integer::from(m as usize),
        "u128" => Integer::from(m),
        "i8" => Integer::from(as_i() as i8),
        "i16" => Integer::from(as_i() as i16),
        "i32" => Integer::from(as_i() as i32),
        "i64" => Integer::from(as_i() as i64),
        "isize" => Integer::from(as_i() as isize),
        "i128" => Integer::from(as_i()),
        t => panic!("native type {t}"),
    }
}
pub fn ts_out(t: &NaiveDateTime) -> J {
    json!([t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.nanosecond()])
}
pub fn out(v: &Value) -> J {
    match v {
        Value::Character(c) => json!([0, *c as u32]),
        Value::String(s) => json!([1, cps(s)]),
        Value::Binary(b) => json!([2, b.0]),
        Value::Boolean(b) => json!([3, u8::from(*b)]),
        Value::Integer(i) => json!([4, int_out(*i)]),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => {
            json!([5, [0, modulus.to_le_bytes(), argument.to_le_bytes()]])
        }
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => {
            json!([5, [1, int_out(*real), int_out(*imaginary)]])
        }
        Value::Timestamp(t) => json!([6, ts_out(t)]),
        Value::JSON(j) => json!([7, cps(&j.to_string())]),
        Value::Map(m) => json!([8, map_out(m)]),
        Value::Null(()) => json!([9, 0]),
        Value::DoubleFloat(f) => json!([10, f.to_le_bytes()]),
        Value::Array(a) => json!([11, a.iter().map(out).collect::<Vec<_>>()]),
        Value::Timezone(t) => json!([12, cps(t.name())]),
        Value::Ipv4Addr(a) => json!([13, a.octets()]),
        Value::Ipv6Addr(a) => json!([14, a.segments()]),
        Value::SingleFloat(f) => json!([15, f.to_le_bytes()]),
    }
}
pub fn map_out(m: &HashMap<String, Value>) -> J {
    let mut e = m.iter().collect::<Vec<_>>();
    e.sort_by_key(|(k, _)| (*k).clone());
    J::Array(e.into_iter().map(|(k, v)| json!([cps(k), out(v)])).collect())
}
pub fn make(j: &J) -> Value {
    let p = &j[1];
    match j[0].as_u64().expect("kind") {
        0 => Value::Character(char::from_u32(p.as_u64().unwrap() as u32).expect("char")),
        1 => Value::String(text(p)),
        2 => Value::Binary(BinaryData(bytes(p))),
        3 => Value::Boolean(p.as_u64().unwrap() != 0),
        4 => Value::Integer(int_in(p)),
        5 => Value::Imaginary(if p[0].as_u64().unwrap() == 0 {
            Imaginary::PolarForm {
                modulus: f64_in(&p[1]),
                argument: f64_in(&p[2]),
            }
        } else {
            Imaginary::CartesianForm {
                real: int_in(&p[1]),
                imaginary: int_in(&p[2]),
            }
        }),
        6 => Value::Timestamp(ts_in(p)),
        7 => Value::JSON(serde_json::from_str(&text(p)).expect("json")),
        8 => Value::Map(map_in(p)),
        9 => Value::Null(()),
        10 => Value::DoubleFloat(f64_in(p)),
        11 => Value::Array(p.as_array().unwrap().iter().map(make).collect()),
        12 => Value::Timezone(Tz::from_str(&text(p)).expect("tz")),
        13 => {
            let b: [u8; 4] = bytes(p).try_into().unwrap();
            Value::Ipv4Addr(b.into())
        }
        14 => {
            let s: Vec<u16> = p.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            let s: [u16; 8] = s.try_into().unwrap();
            Value::Ipv6Addr(s.into())
        }
        15 => Value::SingleFloat(f32::from_le_bytes(bytes(p).try_into().unwrap())),
        k => panic!("kind {k}"),
    }
}
pub fn f64_in(j: &J) -> f64 {
    f64::from_le_bytes(bytes(j).try_into().unwrap())
}
pub fn ts_in(p: &J) -> NaiveDateTime {
    let g = |i: usize| p[i].as_i64().unwrap();
    NaiveDate::from_ymd_opt(g(0) as i32, g(1) as u32, g(2) as u32)
        .expect("date")
        .and_hms_nano_opt(g(3) as u32, g(4) as u32, g(5) as u32, g(6) as u32)
        .expect("time")
}
pub fn map_in(p: &J) -> HashMap<String, Value> {
    p.as_array()
        .unwrap()
        .iter()
        .map(|e| (text(&e[0]), make(&e[1])))
        .collect()
}
pub fn store_in(p: &J) -> Store {
    Store::new(map_in(p))
}
