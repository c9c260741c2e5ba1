#![allow(dead_code, unexpected_cfgs, unused, warnings)]
//! Contract shim for `tokio`: `sync::{RwLock, Mutex, OnceCell, Semaphore}` and their guards are the unmodified sources of
//! tokio 1.54.1 (only module visibility is changed and runtime's tracing calls are dropped), built over the assumed
//! contract of the underlying semaphore, see `sync/batch_semaphore.rs`.
pub mod sync;
pub(crate) mod future {
    use std::{
        future::Future,
        pin::pin,
        task::{Context, Poll, Waker},
    };
    /// Blocks the current thread.  A future that isn't ready upon the first poll is waiting for a lock.
    pub(crate) fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = pin!(f);
        let mut cx = Context::from_waker(Waker::noop());
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => v,
            Poll::Pending => {
                fxghost::blocked();
                panic!("the thread is blocked")
            }
        }
    }
}
pub(crate) mod loom {
    pub(crate) mod cell {
        #[derive(Debug)]
        pub(crate) struct UnsafeCell<T>(std::cell::UnsafeCell<T>);
        impl<T> UnsafeCell<T> {
            pub(crate) const fn new(v: T) -> Self {
                Self(std::cell::UnsafeCell::new(v))
            }
            pub(crate) fn with<R>(&self, f: impl FnOnce(*const T) -> R) -> R {
                f(self.0.get())
            }
            pub(crate) fn with_mut<R>(&self, f: impl FnOnce(*mut T) -> R) -> R {
                f(self.0.get())
            }
            pub(crate) fn into_inner(self) -> T {
                self.0.into_inner()
            }
        }
    }
}
