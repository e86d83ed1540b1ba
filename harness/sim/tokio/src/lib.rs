//! `tokio`, with what the daemon waits for decided by the scheduler
pub use real_tokio::*;

pub mod fs;
pub mod sync;

pub mod net {
    pub use real_tokio::net::*;
    pub use simcore::net::TcpListener;
}

pub mod task {
    pub use real_tokio::task::*;
    pub fn spawn_blocking<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(f: F) -> JoinHandle<R> {
        simcore::start_blocking("blocking", f)
    }
    pub fn block_in_place<R, F: FnOnce() -> R>(f: F) -> R {
        f()
    }
}

pub mod signal {
    pub use real_tokio::signal::*;
    fn handler(n: i32) -> std::sync::Arc<real_tokio::sync::Notify> {
        simcore::world(|w| w.handlers.entry(n).or_default().clone())
    }
    pub async fn ctrl_c() -> std::io::Result<()> {
        handler(libc::SIGINT).notified().await;
        Ok(())
    }
    pub mod unix {
        pub use real_tokio::signal::unix::SignalKind;
        #[derive(Debug)]
        pub struct Signal(std::sync::Arc<real_tokio::sync::Notify>);
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                self.0.notified().await;
                Some(())
            }
        }
        pub fn signal(k: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal(super::handler(k.as_raw_value())))
        }
    }
}

pub mod runtime {
    pub use real_tokio::runtime::{Handle, RuntimeFlavor, TryCurrentError};
    use std::{future::Future, io, time::Duration};
    #[derive(Debug)]
    pub struct Builder;
    impl Builder {
        #[must_use]
        pub fn new_multi_thread() -> Self {
            Self
        }
        #[must_use]
        pub fn new_current_thread() -> Self {
            Self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
            self
        }
        pub fn start_paused(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            Ok(Runtime)
        }
    }
    #[derive(Debug)]
    pub struct Runtime;
    impl Runtime {
        pub fn new() -> io::Result<Self> {
            Ok(Self)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output
        where
            F::Output: Unpin,
        {
            simcore::drive::run(f)
        }
    }
}
