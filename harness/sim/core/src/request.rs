//! Requests as clients would send them, and their responses as clients would read them
use axum::{
    body::{to_bytes, Body},
    http::Request,
    response::Response,
};
use serde_json::{json, Value as J};
use sourisdb::{store::Store, types::integer::Integer, utilities::cursor::Cursor, values::Value};

fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
/// some are longer, so that files have different sizes
pub fn value(n: u64) -> Value {
    if n % 5 != 4 {
        return Value::Integer(Integer::from(n));
    }
    let mut x = n;
    let more = (0..n * 131 % 700).map(|_| {
        x = x.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        char::from(b'a' + (x >> 33) as u8 % 26)
    });
    Value::String(format!("{n}:").chars().chain(more).collect())
}
pub fn store(j: &J) -> Store {
    let mut s = Store::default();
    for p in j.as_array().unwrap() {
        s.insert(p[0].as_str().unwrap().to_string(), value(p[1].as_u64().unwrap()));
    }
    s
}
pub fn val_j(v: &Value) -> J {
    if let Some(n) = v.as_str().and_then(|s| s.split(':').next()?.parse::<u64>().ok()) {
        return if *v == value(n) { json!(n) } else { json!(-2) };
    }
    v.as_int().and_then(|i| u64::try_from(*i).ok()).map_or_else(|| json!(-2), |n| json!(n))
}
pub fn store_j(b: &[u8]) -> J {
    match Store::deser(b) {
        Ok(s) => {
            let mut l: Vec<(String, J)> = s.iter().map(|(k, v)| (k.clone(), val_j(v))).collect();
            l.sort_by(|a, b| a.0.cmp(&b.0));
            json!(l)
        }
        Err(_) => json!([["undecodable", -1]]),
    }
}

pub fn build(r: &J) -> Request<Body> {
    let s = |k: &str| enc(r[k].as_str().unwrap_or(""));
    let b = |k: &str| r[k].as_bool().unwrap_or(false);
    if r["op"] == "raw" {
        let w = &r["raw"];
        let h = w["body"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect::<Vec<u8>>();
        return Request::builder().method(w["m"].as_str().unwrap()).uri(format!("{}{}", w["path"].as_str().unwrap(), w["query"].as_str().unwrap())).body(Body::from(h)).unwrap();
    }
    let (m, path, body) = match r["op"].as_str().unwrap() {
        "health" => ("GET", "/healthcheck".to_string(), vec![]),
        "names" => ("GET", "/v1/get_all_db_names".to_string(), vec![]),
        "get_db" => ("GET", format!("/v1/get_db?db_name={}", s("db")), vec![]),
        "add_db" => ("POST", format!("/v1/add_db?db_name={}&overwrite_existing={}", s("db"), b("over")), vec![]),
        "put_db" => ("PUT", format!("/v1/add_db_with_content?db_name={}&overwrite_existing={}", s("db"), b("over")), store(&r["body"]).ser()),
        "rm_db" => ("POST", format!("/v1/rm_db?db_name={}", s("db")), vec![]),
        "clear" => ("POST", format!("/v1/clear_db?db_name={}", s("db")), vec![]),
        "add_kv" => ("PUT", format!("/v1/add_kv?db_name={}&key={}&create_new_database={}&overwrite_key={}", s("db"), s("key"), b("create"), b("over")), value(r["val"].as_u64().unwrap()).ser(None)),
        "rm_kv" => ("POST", format!("/v1/rm_kv?db_name={}&key={}", s("db"), s("key")), vec![]),
        "get_kv" => ("GET", format!("/v1/get_value?db_name={}&key={}", s("db"), s("key")), vec![]),
        x => panic!("request {x}"),
    };
    Request::builder().method(m).uri(path).body(Body::from(body)).unwrap()
}

pub async fn read(op: &str, r: Response) -> J {
    let s = r.status().as_u16();
    let b = to_bytes(r.into_body(), usize::MAX).await.map(|b| b.to_vec()).unwrap_or_default();
    let body = if s >= 300 {
        json!([])
    } else {
        match op {
            "names" => {
                let mut l: Vec<String> = serde_json::from_slice(&b).unwrap_or_else(|_| vec!["undecodable".into()]);
                l.sort();
                json!(l)
            }
            "get_db" => store_j(&b),
            "get_kv" => {
                let mut c = Cursor::new(&b);
                match Value::deser(&mut c, None) {
                    Ok(v) => json!([val_j(&v)]),
                    Err(_) => json!([-1]),
                }
            }
            "add_kv" => json!([serde_json::from_slice::<J>(&b).ok().and_then(|j| j.as_str().map(String::from)).unwrap_or_else(|| "undecodable".into())]),
            _ => json!([]),
        }
    };
    json!({"s": s, "b": body})
}
