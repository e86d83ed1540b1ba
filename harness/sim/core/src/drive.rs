//! Lives of the daemon: one is a run of its `main` under the scheduler
use crate::{read_image, request, watch, world, write_image, Both, Image};
use serde_json::{json, Value as J};
use std::{
    cell::Cell,
    collections::HashMap,
    future::Future,
    io::{BufRead, Read, Write},
    os::fd::FromRawFd,
    path::{Path, PathBuf},
    rc::Rc,
    time::Duration,
};
use tower::ServiceExt;

const SETTLE: usize = 10;
const LIMIT: usize = 6000;

async fn settle() {
    for _ in 0..SETTLE {
        tokio::task::yield_now().await;
    }
}

struct Client {
    steps: Vec<J>,
    at: usize,
    /// the request it waits for
    busy: Rc<Cell<bool>>,
}

enum Choice {
    Gate(usize),
    Client(usize),
    Time,
}

/// The choice a script asks for. What cannot be is passed over.
fn scripted(script: &mut std::collections::VecDeque<String>, saving: &mut Option<(usize, usize)>, choices: &[(String, Choice)]) -> Option<usize> {
    while let Some(e) = script.front() {
        if e == "file" {
            // until one file is in place
            let renames = world(|w| w.renames);
            let (before, n) = saving.unwrap_or((renames, 0));
            let at = choices.iter().position(|c| c.0 == "daemonf").or_else(|| choices.iter().position(|c| c.0 == "daemon"));
            if let (true, Some(i)) = (renames == before && n < 14, at) {
                *saving = Some((before, n + 1));
                return Some(i);
            }
            *saving = None;
        } else {
            let f = format!("{e}f");
            if let Some(i) = choices.iter().position(|c| c.0 == *e || c.0 == f) {
                script.pop_front();
                return Some(i);
            }
        }
        script.pop_front();
    }
    None
}

fn one_of(choices: &[(String, Choice)], from: &[usize], last: &str, sticky: usize) -> usize {
    if world(|w| w.rnd(100)) < sticky {
        if let Some(n) = from.iter().find(|i| choices[**i].0 == last) {
            return *n;
        }
    }
    from[world(|w| w.rnd(from.len()))]
}

/// Lets one thing happen after another until nothing is left to do
async fn schedule(plan: J, over: Rc<Cell<bool>>) {
    let eager = plan["eager"].as_bool().unwrap_or(false);
    let sticky = plan["sticky"].as_u64().unwrap_or(0) as usize; // out of 100
    let time_weight = plan["time"].as_u64().unwrap_or(0) as usize; // out of 100
    let order = plan["order"].as_array().cloned(); // an explicit list of choices to start with
    let mut clients: Vec<Client> = plan["clients"].as_array().unwrap().iter().map(|c| Client { steps: c.as_array().unwrap().clone(), at: 0, busy: Rc::new(Cell::new(false)) }).collect();
    // after so many choices whoever was picked has to wait until nothing else can happen
    let mut hold: Vec<usize> = plan["hold"].as_array().map(|a| a.iter().filter_map(|n| n.as_u64()).map(|n| n as usize).collect()).unwrap_or_default();
    let mut held: Vec<String> = vec![];
    // who comes next, as far as that can be
    let mut script: std::collections::VecDeque<String> = plan["script"].as_array().map(|a| a.iter().filter_map(|e| e.as_str()).map(String::from).collect()).unwrap_or_default();
    let mut saving: Option<(usize, usize)> = None;
    // so many out of 100 file operations wait until nothing else can happen
    let slow = plan["slow"].as_u64().unwrap_or(0) as usize;
    let mut met: Vec<String> = vec![];
    let mut last = String::new();
    let mut idle_time = 0;
    let mut id = 0;
    let mut stuck = 0;
    let mut taken = vec![];
    let mut was_up = false;
    for step in 0.. {
        settle().await;
        if over.get() {
            // the daemon has returned from main: whatever was still going on is gone
            let n = world(|w| w.gates.len());
            let left = world(|w| w.files);
            let _ = (n, left);
            world(|w| {
                w.look();
                w.log(json!({"e": "exit"}));
                w.image("exit");
            });
            break;
        }
        if step > LIMIT {
            world(|w| w.log(json!({"e": "hang", "why": "no end"})));
            break;
        }
        let up = world(|w| w.router.is_some());
        if up && !was_up {
            // from here on everything can be read again
            was_up = true;
            world(|w| w.faults.clear());
        }
        let accepting = world(|w| w.accepting);
        let idle = world(|w| w.busy_background == 0 && w.files == 0 && w.in_flight == 0);
        let mut choices: Vec<(String, Choice)> = vec![];
        world(|w| {
            for (i, g) in w.gates.iter().enumerate() {
                let _ = g.kind;
                choices.push((g.actor.clone(), Choice::Gate(i)));
            }
        });
        let gates = choices.len();
        let after = clients[0].at >= clients[0].steps.len() && !clients[0].busy.get();
        if up && (!eager || gates == 0) {
            for (i, c) in clients.iter_mut().enumerate() {
                if c.busy.get() || c.at >= c.steps.len() {
                    continue;
                }
                let s = &c.steps[c.at];
                let on = match s["act"].as_str() {
                    None => {
                        if !accepting {
                            // refused: nothing more comes of this client
                            c.at = c.steps.len();
                            continue;
                        }
                        true
                    }
                    Some("idle") => idle,
                    // waits until so many background operations are under way
                    Some("busy") => world(|w| w.busy_background > 0),
                    Some("reqs") => world(|w| w.in_flight >= s["n"].as_u64().unwrap() as usize),
                    // waits for the first client to have had all its answers
                    Some("after") => after,
                    Some("done") => world(|w| w.in_flight == 0),
                    Some(_) => true,
                };
                if on {
                    choices.push((format!("c{i}"), Choice::Client(i)));
                }
            }
        }
        let may_time = time_weight > 0 && up;
        if choices.is_empty() {
            let waiting = clients.iter().any(|c| c.at < c.steps.len() || c.busy.get());
            if !waiting && !plan["until_exit"].as_bool().unwrap_or(false) {
                break;
            }
            // what they wait for cannot come about any more
            let mut skipped = false;
            for c in &mut clients {
                if !c.busy.get() && c.at < c.steps.len() && matches!(c.steps[c.at]["act"].as_str(), Some("busy" | "reqs")) {
                    c.at += 1;
                    skipped = true;
                }
            }
            if skipped {
                continue;
            }
            // only time can help
            stuck += 1;
            if stuck > 8 {
                world(|w| w.log(json!({"e": "hang", "why": "nothing goes on"})));
                break;
            }
            world(|w| w.log(json!({"e": "adv", "ms": 5000, "idle": if idle { 5000 } else { 0 }})));
            tokio::time::advance(Duration::from_millis(5000)).await;
            continue;
        }
        if may_time {
            choices.push(("time".into(), Choice::Time));
        }
        let k = choices.len();
        let scripted = scripted(&mut script, &mut saving, &choices);
        let pick = match order.as_ref().and_then(|o| o.get(taken.len())) {
            Some(n) => n.as_u64().unwrap() as usize % k,
            None if plan["rest"] == "first" => 0,
            None if scripted.is_some() => scripted.unwrap(),
            None => {
                let plain = if may_time { k - 1 } else { k };
                for c in &choices[..plain] {
                    if slow > 0 && c.0.ends_with('f') && !met.contains(&c.0) {
                        met.push(c.0.clone());
                        if world(|w| w.rnd(100)) < slow {
                            held.push(c.0.clone());
                        }
                    }
                }
                let free: Vec<usize> = (0..plain).filter(|i| !held.contains(&choices[*i].0)).collect();
                if free.is_empty() {
                    held.clear();
                }
                if may_time && world(|w| w.rnd(100)) < time_weight {
                    k - 1
                } else {
                    let mut from = if free.is_empty() { (0..plain).collect() } else { free };
                    let mut n = one_of(&choices, &from, &last, sticky);
                    if hold.contains(&taken.len()) {
                        let at = taken.len();
                        hold.retain(|h| *h != at);
                        held.push(choices[n].0.clone());
                        from.retain(|i| choices[*i].0 != choices[n].0);
                        if from.is_empty() {
                            held.clear();
                        } else {
                            n = one_of(&choices, &from, &last, sticky);
                        }
                    }
                    n
                }
            }
        };
        taken.push(json!([pick, k]));
        last.clone_from(&choices[pick].0);
        match choices.swap_remove(pick).1 {
            Choice::Gate(i) => {
                let g = world(|w| w.gates.remove(i));
                let _ = g.go.send(());
            }
            Choice::Time => {
                stuck = 0;
                let ms = [1000_u64, 3000, 10000][world(|w| w.rnd(3))];
                let n = if idle { ms } else { 0 };
                world(|w| w.log(json!({"e": "adv", "ms": ms, "idle": n})));
                tokio::time::advance(Duration::from_millis(ms)).await;
            }
            Choice::Client(i) => {
                stuck = 0;
                let s = clients[i].steps[clients[i].at].clone();
                clients[i].at += 1;
                match s["act"].as_str() {
                    None => {
                        id += 1;
                        let me = id;
                        let (router, drained) = world(|w| {
                            w.log(json!({"e": "start", "id": me, "req": s}));
                            w.in_flight += 1;
                            (w.router.clone().unwrap(), w.drained.clone())
                        });
                        let busy = clients[i].busy.clone();
                        busy.set(true);
                        let op = s["as"].as_str().or(s["op"].as_str()).unwrap().to_string();
                        let req = request::build(&s);
                        let h = tokio::task::spawn(crate::ACTOR.scope(format!("r{me}"), async move {
                            let r = router.oneshot(req).await.unwrap();
                            request::read(&op, r).await
                        }));
                        // the client may go away before the answer
                        let abort = s["leave"].as_bool() == Some(true);
                        tokio::task::spawn_local(async move {
                            let r = if abort {
                                let a = h.abort_handle();
                                tokio::select! {
                                    r = h => Some(r),
                                    () = crate::gate_as("leave", format!("x{me}")) => { a.abort(); None }
                                }
                            } else {
                                Some(h.await)
                            };
                            world(|w| {
                                match r {
                                    Some(Ok(r)) => {
                                        w.log(json!({"e": "end", "id": me, "resp": r}));
                                        w.look();
                                        w.image("ack");
                                    }
                                    Some(Err(e)) => w.log(json!({"e": "end", "id": me, "resp": {"s": if e.is_panic() { -1 } else { -2 }, "b": []}})),
                                    None => w.log(json!({"e": "left", "id": me})),
                                }
                                w.in_flight -= 1;
                            });
                            if let Some(d) = drained {
                                d.notify_one();
                            }
                            busy.set(false);
                        });
                    }
                    Some("adv") => {
                        let ms = s["ms"].as_u64().unwrap();
                        let n = if idle { ms } else { 0 };
                        world(|w| w.log(json!({"e": "adv", "ms": ms, "idle": n})));
                        tokio::time::advance(Duration::from_millis(ms)).await;
                    }
                    Some("signal") => {
                        let sig = if s["sig"] == "INT" { libc::SIGINT } else { libc::SIGTERM };
                        world(|w| w.log(json!({"e": "signal"})));
                        match world(|w| w.handlers.get(&sig).cloned()) {
                            Some(n) => n.notify_one(),
                            None => {
                                world(|w| w.log(json!({"e": "killed"})));
                                return;
                            }
                        }
                    }
                    Some("idle") => world(|w| {
                        w.look();
                        w.log(json!({"e": "idle"}));
                        w.image("idle");
                    }),
                    Some("fault") => world(|w| {
                        let db = s["db"].as_str().unwrap().to_string();
                        w.faults.push((format!("/{db}.sdb"), s["op"].as_str().unwrap().into(), s["err"].as_i64().unwrap() as i32));
                        w.log(json!({"e": "fault", "db": db, "op": s["op"]}));
                    }),
                    Some("heal") => world(|w| {
                        w.faults.clear();
                        w.log(json!({"e": "heal"}));
                    }),
                    Some(_) => {}
                }
            }
        }
        idle_time += 1;
    }
    let _ = idle_time;
    world(|w| w.log(json!({"e": "over", "choices": taken.len()})));
    if plan["choices"].as_bool() == Some(true) {
        world(|w| w.log(json!({"e": "choices", "c": taken})));
    }
}

/// Asks for everything, one request after another
async fn dump(over: Rc<Cell<bool>>) -> J {
    async fn let_through() {
        settle().await;
        loop {
            let g = world(|w| if w.gates.is_empty() { None } else { Some(w.gates.remove(0)) });
            match g {
                Some(g) => {
                    let _ = g.go.send(());
                }
                None => break,
            }
            settle().await;
        }
    }
    async fn ask(q: J) -> J {
        let router = world(|w| w.router.clone().unwrap());
        let op = q["op"].as_str().unwrap().to_string();
        let h = tokio::task::spawn(async move {
            let r = router.oneshot(request::build(&q)).await.unwrap();
            request::read(&op, r).await
        });
        for _ in 0..50 {
            let_through().await;
            if h.is_finished() {
                return h.await.unwrap_or_else(|_| json!({"s": -1, "b": []}));
            }
        }
        json!({"s": -3, "b": []})
    }
    for _ in 0..20 {
        let_through().await;
        if over.get() || world(|w| w.router.is_some()) {
            break;
        }
    }
    if over.get() || world(|w| w.router.is_none()) {
        return json!("dead");
    }
    let names = ask(json!({"op": "names"})).await;
    let mut m = vec![];
    for n in names["b"].as_array().cloned().unwrap_or_default() {
        let c = ask(json!({"op": "get_db", "db": n})).await;
        m.push(json!([n, if c["s"] == 200 { c["b"].clone() } else { json!([["status", c["s"]]]) }]));
    }
    json!(m)
}

fn fork_with(f: impl FnOnce() -> J) -> J {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| json!("dead"));
            let mut o = std::fs::File::from_raw_fd(p[1]);
            world(|w| w.watching = false);
            let _ = o.write_all(r.to_string().as_bytes());
            drop(o);
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut i = std::fs::File::from_raw_fd(p[0]);
        let mut s = String::new();
        let _ = i.read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        serde_json::from_str(&s).unwrap_or_else(|_| json!("dead"))
    }
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
fn base_of(root: &Path) -> PathBuf {
    root.join("a").join("b").join("base")
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn image_j(i: &Image) -> J {
    J::Object(i.iter().map(|(k, v)| (k.clone(), json!(hex(v)))).collect())
}
fn image_of(j: &J) -> Image {
    j.as_object().unwrap().iter().map(|(k, v)| (k.clone(), unhex(v.as_str().unwrap()))).collect()
}

/// One life on what a folder holds; gives the trace and what the folder held at each moment
fn life<F: Future>(daemon: F, root: &Path, start: &Image, plan: &J) -> J
where
    F::Output: Unpin,
{
    let base = base_of(root);
    let _ = std::fs::remove_dir_all(root);
    // what cannot be read at the start: a file that cannot be opened or read, or holds something else
    let mut start = start.clone();
    let mut spoilt = vec![];
    let mut faults = vec![];
    for b in plan["blind"].as_array().map(|a| a.as_slice()).unwrap_or_default() {
        let db = b["db"].as_str().unwrap();
        let how = b["how"].as_str().unwrap();
        let file = format!("{db}.sdb");
        let err = b["err"].as_i64().unwrap_or(5) as i32;
        if how == "look" || how == "read" {
            faults.push((format!("/{file}"), how.to_string(), err));
        } else if how == "hide" {
            // not even its folder entry can be looked at
            faults.push((format!("/{file}"), "look".to_string(), err));
            faults.push((format!("/{file}"), "stat".to_string(), err));
        } else if let Some(was) = start.get(&file).cloned() {
            let now = match how {
                "empty" => vec![],
                "short" => was[..was.len() - 1].to_vec(),
                _ => vec![0xFF, 1],
            };
            start.insert(file.clone(), now.clone());
            spoilt.push((file, now, was));
        }
    }
    write_image(&base, &start);
    std::env::set_var("BASE_LOCATION", &base);
    if !watch(&base) {
        return json!("the file operations are not interposed");
    }
    world(|w| {
        w.base = base.clone();
        w.seed = plan["seed"].as_u64().unwrap_or(1);
        w.look();
        w.image("up");
        if let Some(b) = plan["blind"].as_array() {
            w.log(json!({"e": "blind", "dbs": b.iter().map(|b| b["db"].clone()).collect::<Vec<_>>()}));
        }
        w.faults = faults;
        w.watching = true;
    });
    let over = Rc::new(Cell::new(false));
    let rt = runtime();
    let local = tokio::task::LocalSet::new();
    let driver = schedule(plan.clone(), over.clone());
    let both = Both { daemon: Some(Box::pin(daemon)), out: None, driver: Box::pin(driver), over };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| local.block_on(&rt, both)));
    world(|w| {
        w.watching = false;
        if r.is_err() {
            w.log(json!({"e": "died"}));
        }
    });
    // what was spoilt and is still there is put right again
    let right = |i: &Image| {
        let mut i = i.clone();
        for (f, now, was) in &spoilt {
            if i.get(f) == Some(now) {
                i.insert(f.clone(), was.clone());
            }
        }
        i
    };
    let o = world(|w| json!({"trace": w.trace, "images": w.images.iter().map(|i| image_j(&right(i))).collect::<Vec<_>>()}));
    // nothing is dropped: the process ends here
    std::mem::forget(r);
    std::mem::forget(local);
    std::mem::forget(rt);
    o
}
fn recovered<F: Future>(daemon: F, root: &Path, start: &Image, stop: bool) -> J
where
    F::Output: Unpin,
{
    let base = base_of(root);
    let _ = std::fs::remove_dir_all(root);
    write_image(&base, start);
    std::env::set_var("BASE_LOCATION", &base);
    watch(&base);
    let over = Rc::new(Cell::new(false));
    let rt = runtime();
    let local = tokio::task::LocalSet::new();
    let o2 = over.clone();
    let driver = async move {
        let d = dump(over).await;
        if stop && d != "dead" {
            if let Some(n) = world(|w| w.handlers.get(&libc::SIGTERM).cloned()) {
                n.notify_one();
                for _ in 0..2000 {
                    settle().await;
                    if o2.get() {
                        break;
                    }
                    if let Some(g) = world(|w| if w.gates.is_empty() { None } else { Some(w.gates.remove(0)) }) {
                        let _ = g.go.send(());
                    }
                }
            }
        }
        d
    };
    let both = Both { daemon: Some(Box::pin(daemon)), out: None, driver: Box::pin(driver), over: Rc::new(Cell::new(false)) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| local.block_on(&rt, both)));
    let d = match &r {
        Ok((d, _)) => d.clone(),
        Err(_) => json!("dead"),
    };
    let left = image_j(&read_image(&base));
    std::mem::forget(r);
    std::mem::forget(local);
    std::mem::forget(rt);
    json!({"rec": d, "left": left})
}

/// What `main` of the daemon ends in: reads scenarios, runs each in processes of its own, and writes what happened
pub fn run<F: Future>(daemon: F) -> F::Output
where
    F::Output: Unpin,
{
    let mut daemon = Some(daemon);
    let root = PathBuf::from(std::env::var("SIM_ROOT").expect("SIM_ROOT"));
    let mut known: HashMap<(Image, bool), J> = HashMap::new();
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let sc: J = serde_json::from_str(&line).unwrap();
        let mut image = sc.get("image").map(image_of).unwrap_or_default();
        let mut traces = vec![];
        for plan in sc["lives"].as_array().unwrap() {
            let r = fork_with(|| life(daemon.take().unwrap(), &root, &image, plan));
            if r.get("trace").is_none() {
                traces.push(json!([{"e": "lost", "why": r}]));
                break;
            }
            let images: Vec<Image> = r["images"].as_array().unwrap().iter().map(image_of).collect();
            let mut recs: HashMap<(usize, bool), J> = HashMap::new();
            let mut trace = r["trace"].as_array().unwrap().clone();
            let every = plan["again"].as_bool().unwrap_or(false);
            let mut lastimg = 0;
            for e in &mut trace {
                if e["e"] != "image" {
                    continue;
                }
                let n = e["img"].as_u64().unwrap() as usize;
                lastimg = n;
                let again = every && e["k"] != "io";
                if plan["rec"] == "up" && e["k"] != "up" {
                    continue;
                }
                let img = &images[n];
                let rec = recs.entry((n, again)).or_insert_with(|| {
                    known
                        .entry((img.clone(), again))
                        .or_insert_with(|| {
                            let r = fork_with(|| recovered(daemon.take().unwrap(), &root, img, again));
                            let mut o = json!({"rec": r.get("rec").cloned().unwrap_or(json!("dead"))});
                            if again && o["rec"] != "dead" {
                                let left = image_of(&r["left"]);
                                let r2 = fork_with(|| recovered(daemon.take().unwrap(), &root, &left, false));
                                o["rec2"] = r2.get("rec").cloned().unwrap_or(json!("dead"));
                            }
                            o
                        })
                        .clone()
                });
                for (k, v) in rec.as_object().unwrap() {
                    e[k] = v.clone();
                }
            }
            if known.len() > 20000 {
                known.clear();
            }
            traces.push(J::Array(trace));
            // the next life begins with what this one left: at its end, or at a crash somewhere on the way
            image = match plan["crash"].as_u64() {
                Some(n) => images[n as usize % images.len()].clone(),
                None => images[lastimg].clone(),
            };
        }
        let _ = std::fs::remove_dir_all(&root);
        writeln!(out, "{}", json!({"id": sc["id"], "lives": traces})).unwrap();
    }
    let _ = std::fs::remove_dir_all(&root);
    drop(known);
    std::process::exit(0)
}
