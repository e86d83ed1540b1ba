//! `axum`, but what is served takes its requests from the scheduler
pub use real_axum::*;
pub use simcore::net::{serve, Serve};
#[doc(hidden)]
pub mod served {
    pub use simcore::net::Serve;
}
