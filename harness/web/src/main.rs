//! Handlers that take and answer values and stores, called as axum calls them: one JSON object per line says what arrives, and what was answered is reported. It decides nothing.
#[allow(dead_code)]
#[path = "../../conf/src/val.rs"]
mod val;

use axum::{
    body::{to_bytes, Body, Bytes},
    extract::{FromRequest, Request},
    handler::Handler,
    response::{IntoResponse, Response},
};
use serde_json::{json, Value as J};
use sourisdb::{axum::SourisRejection, store::Store, values::Value};
use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    io::{BufRead, Write},
    panic,
    pin::{pin, Pin},
    task::{Context, Poll, Waker},
};
use val::*;

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) } }

/// a body that arrives in parts, and may break off after them; between the parts nothing is there
struct Parts {
    left: VecDeque<Bytes>,
    breaks: bool,
    wait: bool,
}
impl http_body::Body for Parts {
    type Data = Bytes;
    type Error = std::io::Error;
    fn poll_frame(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<http_body::Frame<Bytes>, std::io::Error>>> {
        self.wait = !self.wait;
        if self.wait {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.left.pop_front() {
            Some(b) => Poll::Ready(Some(Ok(http_body::Frame::data(b)))),
            None if self.breaks => {
                self.breaks = false;
                Poll::Ready(Some(Err(std::io::Error::other("broken off"))))
            }
            None => Poll::Ready(None),
        }
    }
}

fn wait_for<T>(f: impl Future<Output = T>) -> T {
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return x;
        }
    }
}

fn request(b: &[u8], j: &J) -> Request {
    let n = j["parts"].as_u64().unwrap_or(1).max(1) as usize;
    let left = b.chunks(b.len().div_ceil(n).max(1)).map(Bytes::copy_from_slice).collect();
    Request::builder().method("PUT").uri("/x").body(Body::new(Parts { left, breaks: j["breaks"].as_bool() == Some(true), wait: false })).unwrap()
}

fn answer(r: Response) -> (u16, String, Vec<u8>) {
    let s = r.status().as_u16();
    let t = r.headers().get("content-type").map_or(String::new(), |h| h.to_str().unwrap_or("?").to_string());
    (s, t, wait_for(to_bytes(r.into_body(), usize::MAX)).unwrap().to_vec())
}

async fn echo_value(v: Value) -> Value {
    v
}
async fn echo_store(s: Store) -> Store {
    s
}
async fn maybe_value(v: Result<Value, SourisRejection>) -> Result<Value, SourisRejection> {
    v
}
async fn maybe_store(s: Result<Store, SourisRejection>) -> Result<Store, SourisRejection> {
    s
}

fn echoed((s, t, b): (u16, String, Vec<u8>)) -> J {
    if s == 200 {
        json!({"s": s, "t": t, "b": b})
    } else {
        json!({"s": s, "t": t, "text": cps(&String::from_utf8_lossy(&b))})
    }
}
fn rejected(e: SourisRejection) -> J {
    let (shown, text, status) = (e.to_string(), e.body_text(), e.status().as_u16());
    let mut a = echoed(answer(e.into_response()));
    a["shown"] = cps(&shown);
    a["says"] = cps(&text);
    a["status"] = json!(status);
    json!({"r": "refused", "a": a})
}

fn step(j: &J) -> J {
    let store = j["what"] == "store";
    match j["op"].as_str().unwrap() {
        // a body arrives
        "take" => {
            let b = bytes(&j["b"]);
            let mut o = if store {
                match wait_for(Store::from_request(request(&b, j), &())) {
                    Ok(s) => json!({"r": "ok", "v": map_out(&s)}),
                    Err(e) => rejected(e),
                }
            } else {
                match wait_for(Value::from_request(request(&b, j), &())) {
                    Ok(v) => json!({"r": "ok", "v": out(&v)}),
                    Err(e) => rejected(e),
                }
            };
            let plain = if store { wait_for(echo_store.call(request(&b, j), ())) } else { wait_for(echo_value.call(request(&b, j), ())) };
            let maybe = if store { wait_for(maybe_store.call(request(&b, j), ())) } else { wait_for(maybe_value.call(request(&b, j), ())) };
            o["plain"] = echoed(answer(plain));
            o["maybe"] = echoed(answer(maybe));
            o
        }
        // something is answered
        "give" => {
            let (v, a) = if store {
                let s = store_in(&j["v"]);
                (map_out(&s), answer(s.into_response()))
            } else {
                let v = make(&j["v"]);
                (out(&v), answer(v.into_response()))
            };
            json!({"r": "ok", "v": v, "a": echoed(a)})
        }
        // a text of so many bytes arrives
        "size" => {
            let n = j["n"].as_u64().unwrap() as usize;
            let v = Value::String("x".repeat(n));
            let b = v.ser(None);
            let (s, same) = if store {
                // what is stored is compressed: something that is none, of that size
                let mut b = vec![0; n];
                b[..8].copy_from_slice(b"SOURISDC");
                let (s, _, _) = answer(wait_for(echo_store.call(request(&b, j), ())));
                return json!({"r": "ok", "len": n, "s": s, "same": false});
            } else {
                let (s, _, a) = answer(wait_for(echo_value.call(request(&b, j), ())));
                (s, a == b)
            };
            json!({"r": "ok", "len": b.len(), "s": s, "same": same})
        }
        o => json!({"r": "unknown", "op": o}),
    }
}

fn main() {
    panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    let f = || {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout().lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let mut de = serde_json::Deserializer::from_str(&line);
            de.disable_recursion_limit();
            let j: J = serde::Deserialize::deserialize(&mut de).unwrap();
            let r = panic::catch_unwind(panic::AssertUnwindSafe(|| step(&j))).unwrap_or_else(|_| json!({"r": "panic", "m": LAST.with(|l| l.borrow().clone())}));
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap();
}
