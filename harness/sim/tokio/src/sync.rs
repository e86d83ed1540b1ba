//! Locks that are asked for when the scheduler says so
pub use real_tokio::sync::*;
use simcore::{gate, Busy};
use std::sync::Arc;

#[derive(Debug, Default)]
pub struct Mutex<T>(Arc<real_tokio::sync::Mutex<T>>);
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Self(Arc::new(real_tokio::sync::Mutex::new(t)))
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.lock().await
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.clone().lock_owned().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        self.0.try_lock()
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        self.0.clone().try_lock_owned()
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.0).unwrap().get_mut()
    }
    pub fn into_inner(self) -> T {
        Arc::try_unwrap(self.0).ok().unwrap().into_inner()
    }
}

#[derive(Debug, Default)]
pub struct RwLock<T>(Arc<real_tokio::sync::RwLock<T>>);
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        Self(Arc::new(real_tokio::sync::RwLock::new(t)))
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.read().await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.write().await
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.clone().read_owned().await
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        let _b = Busy::new();
        gate("lock").await;
        self.0.clone().write_owned().await
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        self.0.try_write()
    }
    pub fn get_mut(&mut self) -> &mut T {
        Arc::get_mut(&mut self.0).unwrap().get_mut()
    }
    pub fn into_inner(self) -> T {
        Arc::try_unwrap(self.0).ok().unwrap().into_inner()
    }
}
