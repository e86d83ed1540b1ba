//! Files, in the way `tokio` does them: operations happen on their own, and what was written may not be there yet (nor
//! have failed yet) when a write returns.
pub use real_tokio::fs::*;
use real_tokio::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
use simcore::{blocking, start_blocking, Busy};
use std::{
    fs as std_fs,
    future::Future,
    io::{self, Read, Seek, SeekFrom, Write},
    path::{Path, PathBuf},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{ready, Context, Poll},
};

fn p(p: impl AsRef<Path>) -> PathBuf {
    p.as_ref().to_owned()
}
pub async fn create_dir(a: impl AsRef<Path>) -> io::Result<()> {
    let a = p(a);
    blocking("fs", move || std_fs::create_dir(a)).await
}
pub async fn create_dir_all(a: impl AsRef<Path>) -> io::Result<()> {
    let a = p(a);
    blocking("fs", move || std_fs::create_dir_all(a)).await
}
pub async fn remove_file(a: impl AsRef<Path>) -> io::Result<()> {
    let a = p(a);
    blocking("fs", move || std_fs::remove_file(a)).await
}
pub async fn remove_dir(a: impl AsRef<Path>) -> io::Result<()> {
    let a = p(a);
    blocking("fs", move || std_fs::remove_dir(a)).await
}
pub async fn remove_dir_all(a: impl AsRef<Path>) -> io::Result<()> {
    let a = p(a);
    blocking("fs", move || std_fs::remove_dir_all(a)).await
}
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    let (a, b) = (p(a), p(b));
    blocking("fs", move || std_fs::rename(a, b)).await
}
pub async fn copy(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<u64> {
    let (a, b) = (p(a), p(b));
    blocking("fs", move || std_fs::copy(a, b)).await
}
pub async fn hard_link(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    let (a, b) = (p(a), p(b));
    blocking("fs", move || std_fs::hard_link(a, b)).await
}
pub async fn read(a: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    let a = p(a);
    blocking("fs", move || std_fs::read(a)).await
}
pub async fn read_to_string(a: impl AsRef<Path>) -> io::Result<String> {
    let a = p(a);
    blocking("fs", move || std_fs::read_to_string(a)).await
}
pub async fn write(a: impl AsRef<Path>, b: impl AsRef<[u8]>) -> io::Result<()> {
    let (a, b) = (p(a), b.as_ref().to_owned());
    blocking("fs", move || std_fs::write(a, b)).await
}
pub async fn metadata(a: impl AsRef<Path>) -> io::Result<std_fs::Metadata> {
    let a = p(a);
    blocking("fs", move || std_fs::metadata(a)).await
}
pub async fn try_exists(a: impl AsRef<Path>) -> io::Result<bool> {
    let a = p(a);
    blocking("fs", move || a.try_exists()).await
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std_fs::OpenOptions);
impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}
impl OpenOptions {
    #[must_use]
    pub fn new() -> Self {
        Self(std_fs::OpenOptions::new())
    }
    pub fn read(&mut self, b: bool) -> &mut Self {
        self.0.read(b);
        self
    }
    pub fn write(&mut self, b: bool) -> &mut Self {
        self.0.write(b);
        self
    }
    pub fn append(&mut self, b: bool) -> &mut Self {
        self.0.append(b);
        self
    }
    pub fn truncate(&mut self, b: bool) -> &mut Self {
        self.0.truncate(b);
        self
    }
    pub fn create(&mut self, b: bool) -> &mut Self {
        self.0.create(b);
        self
    }
    pub fn create_new(&mut self, b: bool) -> &mut Self {
        self.0.create_new(b);
        self
    }
    pub async fn open(&self, a: impl AsRef<Path>) -> io::Result<File> {
        let (o, a) = (self.0.clone(), p(a));
        blocking("fs", move || o.open(a)).await.map(File::from_std)
    }
}

type Under = Pin<Box<dyn Future<Output = io::Result<()>> + Send + Sync>>;
struct Inner {
    going: Option<Under>,
    err: Option<io::ErrorKind>,
}
impl Inner {
    fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if let Some(e) = self.err.take() {
            return Poll::Ready(Err(e.into()));
        }
        let Some(g) = self.going.as_mut() else {
            return Poll::Ready(Ok(()));
        };
        let r = ready!(g.as_mut().poll(cx));
        self.going = None;
        Poll::Ready(r)
    }
}
pub struct File {
    std: Arc<std_fs::File>,
    inner: Mutex<Inner>,
}
impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.std.fmt(f)
    }
}
impl From<std_fs::File> for File {
    fn from(f: std_fs::File) -> Self {
        Self::from_std(f)
    }
}
impl File {
    pub async fn open(a: impl AsRef<Path>) -> io::Result<Self> {
        let a = p(a);
        blocking("fs", move || std_fs::File::open(a)).await.map(Self::from_std)
    }
    pub async fn create(a: impl AsRef<Path>) -> io::Result<Self> {
        let a = p(a);
        blocking("fs", move || std_fs::File::create(a)).await.map(Self::from_std)
    }
    pub async fn create_new(a: impl AsRef<Path>) -> io::Result<Self> {
        let a = p(a);
        blocking("fs", move || std_fs::File::create_new(a)).await.map(Self::from_std)
    }
    #[must_use]
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    #[must_use]
    pub fn from_std(f: std_fs::File) -> Self {
        Self { std: Arc::new(f), inner: Mutex::new(Inner { going: None, err: None }) }
    }
    /// waits for what is under way; a failure is kept for the next write or flush
    async fn settled(&self) {
        let _b = Busy::new();
        std::future::poll_fn(|cx| {
            let mut i = self.inner.lock().unwrap();
            match ready!(i.poll_flush(cx)) {
                Ok(()) => (),
                Err(e) => i.err = Some(e.kind()),
            }
            Poll::Ready(())
        })
        .await;
    }
    pub async fn sync_all(&self) -> io::Result<()> {
        self.settled().await;
        let s = self.std.clone();
        blocking("fs", move || s.sync_all()).await
    }
    pub async fn sync_data(&self) -> io::Result<()> {
        self.settled().await;
        let s = self.std.clone();
        blocking("fs", move || s.sync_data()).await
    }
    pub async fn set_len(&self, n: u64) -> io::Result<()> {
        self.settled().await;
        let s = self.std.clone();
        blocking("fs", move || s.set_len(n)).await
    }
    pub async fn metadata(&self) -> io::Result<std_fs::Metadata> {
        self.std.metadata()
    }
    pub async fn set_permissions(&self, m: std_fs::Permissions) -> io::Result<()> {
        self.std.set_permissions(m)
    }
    pub async fn try_clone(&self) -> io::Result<Self> {
        self.settled().await;
        self.std.try_clone().map(Self::from_std)
    }
    pub async fn into_std(self) -> std_fs::File {
        self.settled().await;
        Arc::try_unwrap(self.std).unwrap()
    }
    pub fn set_max_buf_size(&mut self, _: usize) {}
}
impl AsyncRead for File {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        ready!(i.poll_flush(cx))?;
        let n = (&*me.std).read(b.initialize_unfilled())?;
        b.advance(n);
        Poll::Ready(Ok(()))
    }
}
impl AsyncSeek for File {
    fn start_seek(self: Pin<&mut Self>, to: SeekFrom) -> io::Result<()> {
        (&*self.std).seek(to).map(|_| ())
    }
    fn poll_complete(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<u64>> {
        Poll::Ready((&*self.std).stream_position())
    }
}
impl AsyncWrite for File {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        let i = me.inner.get_mut().unwrap();
        ready!(i.poll_flush(cx))?;
        let b = b[..b.len().min(2 << 20)].to_vec();
        let n = b.len();
        let s = me.std.clone();
        let h = start_blocking("fs", move || (&*s).write_all(&b));
        let busy = Busy::new();
        i.going = Some(Box::pin(async move {
            let _b = busy;
            h.await.unwrap()
        }));
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.get_mut().inner.get_mut().unwrap().poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
