//! Makes calls of the two clients, one JSON object per line, and reports what they returned. It decides nothing.
#[allow(dead_code)]
#[path = "../../conf/src/val.rs"]
mod val;

use serde_json::{json, Value as J};
use sourisdb::client::{AsyncClient, ClientError, CreationResult, SyncClient};
use std::{
    cell::RefCell,
    collections::HashMap,
    io::{BufRead, Write},
    panic,
};

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) } }

struct World {
    rt: tokio::runtime::Runtime,
    sync: HashMap<(String, u64), SyncClient>,
    other: HashMap<(String, u64), AsyncClient>,
}

fn failed(e: &ClientError) -> J {
    let s = match e {
        ClientError::HttpErrorCode(s) | ClientError::ServerNotHealthy(s) => s.as_u16(),
        _ => 0,
    };
    json!({"r": "err", "s": s, "m": e.to_string()})
}
fn told(c: &CreationResult) -> J {
    let s = match c {
        CreationResult::InsertedKeyIntoExistingDB => "InsertedKeyIntoExistingDB",
        CreationResult::OverwroteKeyInExistingDB => "OverwroteKeyInExistingDB",
        CreationResult::FoundExistingKey => "FoundExistingKey",
        CreationResult::InsertedKeyIntoNewDB => "InsertedKeyIntoNewDB",
        CreationResult::UnableToFindDB => "UnableToFindDB",
    };
    json!({"r": "ok", "t": s})
}
fn flag(b: bool) -> J {
    json!({"r": "ok", "t": if b { "true" } else { "false" }})
}
fn nothing() -> J {
    json!({"r": "ok", "t": ""})
}
fn names(v: Vec<String>) -> J {
    json!({"r": "ok", "t": "", "names": v.iter().map(|n| val::cps(n)).collect::<Vec<_>>()})
}
fn store(s: &sourisdb::store::Store) -> J {
    json!({"r": "ok", "t": "some", "store": val::map_out(s)})
}

fn call(w: &mut World, j: &J) -> Result<J, ClientError> {
    let host = j["host"].as_str().unwrap_or("127.0.0.1").to_string();
    let port = j["port"].as_u64().unwrap();
    let at = (host.clone(), port);
    let op = j["op"].as_str().unwrap();
    let t = |k: &str| val::text(&j[k]);
    let f = |k: &str| j[k].as_bool().unwrap();
    let fresh = op == "new" || j["fresh"] == json!(true);
    if j["kind"] == "sync" {
        if fresh || !w.sync.contains_key(&at) {
            w.sync.remove(&at);
            w.sync.insert(at.clone(), SyncClient::new(&host, port as u32)?);
        }
        let c = &w.sync[&at];
        Ok(match op {
            "new" => nothing(),
            "list" => names(c.get_all_dbs()?),
            "create" => flag(c.create_new_db(f("over"), &t("db"))?),
            "get" => store(&c.get_store(&t("db"))?),
            "put" => flag(c.add_db_with_contents(f("over"), &t("db"), &val::store_in(&j["body"]))?),
            "add" => told(&c.add_entry_to_db(&t("db"), f("create"), f("over"), &t("key"), &val::make(&j["val"]))?),
            "rm_key" => {
                c.remove_entry_from_db(&t("db"), &t("key"))?;
                nothing()
            }
            "rm_db" => {
                c.remove_db(&t("db"))?;
                nothing()
            }
            _ => panic!("call {op}"),
        })
    } else {
        let World { rt, other, .. } = w;
        rt.block_on(async {
            if fresh || !other.contains_key(&at) {
                other.remove(&at);
                other.insert(at.clone(), AsyncClient::new(&host, Some(port as u32)).await?);
            }
            let c = &other[&at];
            Ok(match op {
                "new" => nothing(),
                "list" => names(c.get_all_dbs().await?),
                "create" => flag(c.create_new_db(f("over"), &t("db")).await?),
                "get" => match c.get_store(&t("db")).await? {
                    Some(s) => store(&s),
                    None => json!({"r": "ok", "t": "none"}),
                },
                "put" => flag(c.add_db_with_contents(f("over"), &t("db"), &val::store_in(&j["body"])).await?),
                "add" => told(&c.add_entry_to_db(&t("db"), f("create"), f("over"), &t("key"), &val::make(&j["val"])).await?),
                "rm_key" => {
                    c.remove_entry_from_db(&t("db"), &t("key")).await?;
                    nothing()
                }
                "rm_db" => flag(c.remove_db(&t("db")).await?),
                _ => panic!("call {op}"),
            })
        })
    }
}

fn main() {
    panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = i.to_string())));
    let mut w = World {
        rt: tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap(),
        sync: HashMap::new(),
        other: HashMap::new(),
    };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let j: J = match serde::Deserialize::deserialize(&mut de) {
            Ok(j) => j,
            Err(e) => {
                eprintln!("bad line: {e}");
                std::process::exit(3)
            }
        };
        let r = match panic::catch_unwind(panic::AssertUnwindSafe(|| call(&mut w, &j))) {
            Ok(Ok(j)) => j,
            Ok(Err(e)) => failed(&e),
            Err(_) => json!({"r": "panic", "s": 0, "m": LAST.with(|l| l.borrow().clone())}),
        };
        let mut out = std::io::stdout().lock();
        writeln!(out, "{r}").unwrap();
        out.flush().unwrap();
    }
}
