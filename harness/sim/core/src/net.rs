//! What the daemon listens on: nothing. Requests go to the router directly.
use crate::world;
use axum::Router;
use std::{
    future::{Future, IntoFuture},
    io,
    net::SocketAddr,
    pin::Pin,
    sync::Arc,
};
use tokio::sync::Notify;

pub struct TcpListener(SocketAddr);
impl TcpListener {
    pub async fn bind<A: ToString>(addr: A) -> io::Result<Self> {
        Ok(Self(addr.to_string().parse().unwrap_or_else(|_| ([127, 0, 0, 1], 7687).into())))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.0)
    }
}

pub trait Served {
    fn router(self) -> Router;
}
impl Served for Router {
    fn router(self) -> Router {
        self
    }
}

pub struct Serve<F> {
    router: Router,
    signal: Option<F>,
}
pub fn serve<M: Served>(_l: TcpListener, m: M) -> Serve<std::future::Pending<()>> {
    Serve { router: m.router(), signal: None }
}
impl<F> Serve<F> {
    pub fn with_graceful_shutdown<G: Future<Output = ()> + Send + 'static>(self, signal: G) -> Serve<G> {
        Serve { router: self.router, signal: Some(signal) }
    }
    #[must_use]
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
}
impl<F: Future<Output = ()> + Send + 'static> IntoFuture for Serve<F> {
    type Output = io::Result<()>;
    type IntoFuture = Pin<Box<dyn Future<Output = io::Result<()>> + Send>>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move {
            let drained = Arc::new(Notify::new());
            world(|w| {
                w.router = Some(self.router);
                w.accepting = true;
                w.drained = Some(drained.clone());
            });
            match self.signal {
                None => std::future::pending::<()>().await,
                Some(s) => s.await,
            }
            world(|w| w.accepting = false);
            while world(|w| w.in_flight > 0) {
                drained.notified().await;
            }
            Ok(())
        })
    }
}
