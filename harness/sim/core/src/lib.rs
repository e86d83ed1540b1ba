//! A scheduler that decides the order of everything the daemon waits for, and records what happens.
//!
//! The daemon's own sources are built against thin stand-ins for `tokio`, `moka` and `axum::serve`. Every lock, cache and
//! file operation first waits at a *gate*; one gate, one client step or one step of (virtual) time is let through at a
//! time, picked by a seeded generator. File operations are also seen one by one underneath (see interpose.c): after each,
//! what is in the folder is what a crash at that moment would leave.
use serde_json::{json, Value as J};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    ffi::{c_char, c_int, CStr, CString},
    future::Future,
    path::{Path, PathBuf},
    pin::Pin,
    task::{Context, Poll},
};
use tokio::sync::{oneshot, Notify};

pub mod drive;
pub mod net;
pub mod request;

pub type Image = BTreeMap<String, Vec<u8>>;

struct Gate {
    actor: String,
    kind: &'static str,
    go: oneshot::Sender<()>,
}

#[derive(Default)]
pub struct World {
    seed: u64,
    gates: Vec<Gate>,
    pub trace: Vec<J>,
    pub busy: usize,
    pub busy_background: usize,
    pub files: usize,
    pub router: Option<axum::Router>,
    pub accepting: bool,
    pub in_flight: usize,
    pub drained: Option<std::sync::Arc<Notify>>,
    pub handlers: HashMap<i32, std::sync::Arc<Notify>>,
    pub base: PathBuf,
    pub images: Vec<Image>,
    pub last: usize,
    pub faults: Vec<(String, String, i32)>,
    pub escapes: usize,
    pub renames: usize,
    pub watching: bool,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

impl World {
    pub fn rnd(&mut self, n: usize) -> usize {
        self.seed = self.seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.seed;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        (z % (n as u64)) as usize
    }
    pub fn log(&mut self, e: J) {
        self.trace.push(e);
    }
    /// records what a crash now would leave
    pub fn image(&mut self, kind: &str) {
        let last = self.last;
        self.log(json!({"e": "image", "k": kind, "img": last}));
    }
    pub fn look(&mut self) -> bool {
        let now = read_image(&self.base);
        if self.images.get(self.last) == Some(&now) {
            return false;
        }
        self.last = match self.images.iter().position(|i| *i == now) {
            Some(i) => i,
            None => {
                self.images.push(now);
                self.images.len() - 1
            }
        };
        true
    }
}

pub fn read_image(base: &Path) -> Image {
    let mut i = Image::new();
    if let Ok(d) = std::fs::read_dir(base) {
        for e in d.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if let Ok(b) = std::fs::read(e.path()) {
                i.insert(name, b);
            }
        }
    }
    i
}
pub fn write_image(base: &Path, i: &Image) {
    std::fs::create_dir_all(base).unwrap();
    for (n, b) in i {
        std::fs::write(base.join(n), b).unwrap();
    }
}

tokio::task_local! {
    /// the request a task is about; everything else is the daemon's own
    pub static ACTOR: String;
}
pub fn actor() -> String {
    ACTOR.try_with(Clone::clone).unwrap_or_else(|_| "daemon".to_string())
}

/// Counts an operation as going on for as long as it lives
pub struct Busy {
    background: bool,
}
impl Busy {
    pub fn new() -> Self {
        let a = actor();
        world(|w| {
            let background = a == "daemon";
            w.busy += 1;
            w.busy_background += usize::from(background);
            Self { background }
        })
    }
}
impl Default for Busy {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        world(|w| {
            w.busy -= 1;
            w.busy_background -= usize::from(self.background);
        });
    }
}

/// Waits until the scheduler lets this through
pub async fn gate(kind: &'static str) {
    gate_as(kind, actor()).await;
}
pub async fn gate_as(kind: &'static str, actor: String) {
    let (go, wait) = oneshot::channel();
    world(|w| w.gates.push(Gate { actor, kind, go }));
    let _ = wait.await;
}

/// A blocking operation: it happens as a task of its own, whether or not somebody still waits for it
pub async fn blocking<R: Send + 'static>(kind: &'static str, f: impl FnOnce() -> R + Send + 'static) -> R {
    let _b = Busy::new();
    match start_blocking(kind, f).await {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e.into_panic()),
    }
}
pub fn start_blocking<R: Send + 'static>(kind: &'static str, f: impl FnOnce() -> R + Send + 'static) -> tokio::task::JoinHandle<R> {
    struct File;
    impl Drop for File {
        fn drop(&mut self) {
            world(|w| w.files -= 1);
        }
    }
    world(|w| w.files += 1);
    let me = actor();
    tokio::task::spawn(async move {
        let _f = File;
        gate_as(kind, format!("{me}f")).await;
        f()
    })
}

/// Polls the daemon and the scheduler as one task
pub struct Both<A: Future, B: Future> {
    pub daemon: Option<Pin<Box<A>>>,
    pub out: Option<A::Output>,
    pub driver: Pin<Box<B>>,
    pub over: std::rc::Rc<std::cell::Cell<bool>>,
}
impl<A: Future, B: Future> Future for Both<A, B>
where
    A::Output: Unpin,
{
    type Output = (B::Output, Option<A::Output>);
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(d) = self.daemon.as_mut() {
            if let Poll::Ready(o) = d.as_mut().poll(cx) {
                self.daemon = None;
                self.out = Some(o);
                self.over.set(true);
            }
        }
        match self.driver.as_mut().poll(cx) {
            Poll::Ready(b) => Poll::Ready((b, self.out.take())),
            Poll::Pending => Poll::Pending,
        }
    }
}

// ------------------------------------------------------------------ the file operations underneath
type Hook = extern "C" fn(c_int, *const c_char, *const c_char, *const c_char) -> c_int;
extern "C" fn hook(phase: c_int, op: *const c_char, p: *const c_char, q: *const c_char) -> c_int {
    let s = |p: *const c_char| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    let (op, p, q) = (s(op), s(p), s(q));
    WORLD.with(|w| {
        let Ok(mut w) = w.try_borrow_mut() else { return 0 };
        if !w.watching {
            return 0;
        }
        if op == "escape" {
            w.escapes += 1;
            w.log(json!({"e": "escape", "p": p}));
            return 0;
        }
        if phase == 0 {
            for (sub, o, e) in &w.faults {
                if (p.contains(sub) || q.contains(sub)) && (*o == op || (o == "*" && !["look", "read", "stat"].contains(&op.as_str()))) {
                    return *e;
                }
            }
            return 0;
        }
        w.renames += usize::from(op == "rename");
        if w.look() {
            w.image("io");
        }
        0
    })
}
pub fn watch(base: &Path) -> bool {
    unsafe {
        let f = libc::dlsym(libc::RTLD_DEFAULT, c"ip_set_hook".as_ptr());
        if f.is_null() {
            return false;
        }
        let f: extern "C" fn(Hook, *const c_char) = std::mem::transmute(f);
        let b = CString::new(base.to_str().unwrap()).unwrap();
        f(hook, b.as_ptr());
    }
    true
}
