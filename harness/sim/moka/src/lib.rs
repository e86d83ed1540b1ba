//! `moka`, with every operation on a cache waiting for its turn
pub use real_moka::*;
pub mod future {
    pub use real_moka::future::*;
    use simcore::{gate, Busy};
    use std::{borrow::Borrow, fmt, future::Future, hash::Hash, ops::Deref, sync::Arc, time::Duration};

    pub struct Cache<K, V>(real_moka::future::Cache<K, V>);
    impl<K, V> Clone for Cache<K, V> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    impl<K: fmt::Debug + Eq + Hash + Send + Sync + 'static, V: fmt::Debug + Clone + Send + Sync + 'static> fmt::Debug for Cache<K, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<K, V> Deref for Cache<K, V> {
        type Target = real_moka::future::Cache<K, V>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    async fn turn() {
        let _b = Busy::new();
        gate("cache").await;
    }
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> Cache<K, V> {
        #[must_use]
        pub fn new(n: u64) -> Self {
            Self(real_moka::future::Cache::new(n))
        }
        #[must_use]
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder(real_moka::future::Cache::builder())
        }
        pub async fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            turn().await;
            self.0.get(k).await
        }
        pub async fn insert(&self, k: K, v: V) {
            turn().await;
            self.0.insert(k, v).await;
        }
        pub async fn invalidate<Q: Hash + Eq + ?Sized>(&self, k: &Q)
        where
            K: Borrow<Q>,
        {
            turn().await;
            self.0.invalidate(k).await;
        }
        pub async fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            turn().await;
            self.0.remove(k).await
        }
        pub async fn get_with(&self, k: K, f: impl Future<Output = V>) -> V {
            turn().await;
            self.0.get_with(k, f).await
        }
        pub async fn try_get_with<E: Send + Sync + 'static>(&self, k: K, f: impl Future<Output = Result<V, E>>) -> Result<V, Arc<E>> {
            turn().await;
            self.0.try_get_with(k, f).await
        }
        pub async fn optionally_get_with(&self, k: K, f: impl Future<Output = Option<V>>) -> Option<V> {
            turn().await;
            self.0.optionally_get_with(k, f).await
        }
        pub async fn run_pending_tasks(&self) {
            turn().await;
            self.0.run_pending_tasks().await;
        }
    }
    pub struct CacheBuilder<K, V>(real_moka::future::CacheBuilder<K, V, real_moka::future::Cache<K, V>>);
    impl<K: Hash + Eq + Send + Sync + 'static, V: Clone + Send + Sync + 'static> CacheBuilder<K, V> {
        #[must_use]
        pub fn new(n: u64) -> Self {
            Self(real_moka::future::CacheBuilder::new(n))
        }
        #[must_use]
        pub fn max_capacity(self, n: u64) -> Self {
            Self(self.0.max_capacity(n))
        }
        #[must_use]
        pub fn initial_capacity(self, n: usize) -> Self {
            Self(self.0.initial_capacity(n))
        }
        #[must_use]
        pub fn name(self, n: &str) -> Self {
            Self(self.0.name(n))
        }
        #[must_use]
        pub fn time_to_live(self, n: Duration) -> Self {
            Self(self.0.time_to_live(n))
        }
        #[must_use]
        pub fn time_to_idle(self, n: Duration) -> Self {
            Self(self.0.time_to_idle(n))
        }
        #[must_use]
        pub fn build(self) -> Cache<K, V> {
            Cache(self.0.build())
        }
    }
}
