//! Paused-clock single-threaded runtime.
use std::future::Future;
use std::time::Duration;

pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    rt.block_on(tokio::task::unconstrained(f))
}

/// Lets spawned tasks and timers run until nothing moves.
pub async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}

pub async fn advance(ms: u64) {
    advance_d(Duration::from_millis(ms)).await
}
pub async fn advance_d(d: Duration) {
    tokio::time::advance(d).await;
    settle().await;
}
pub fn now() -> tokio::time::Instant {
    tokio::time::Instant::now()
}
