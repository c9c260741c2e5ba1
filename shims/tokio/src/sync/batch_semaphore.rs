//! Contract of the semaphore all of tokio's async locks are built upon: `try_acquire` atomically takes the permits when
//! there're enough of them; `acquire` is pending until they can be taken, and a dropped acquisition takes nothing;
//! `release` returns the permits.  Fairness and wake-ups are not modelled.
use fxghost::{interfere, Pt};
use std::{
    cell::Cell,
    fmt,
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};

#[derive(Debug)]
pub(crate) struct Semaphore {
    permits: Cell<usize>,
    closed:  Cell<bool>,
}
unsafe impl Send for Semaphore {}
unsafe impl Sync for Semaphore {}

#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl TryAcquireError {
    pub(crate) fn is_closed(&self) -> bool {
        matches!(self, TryAcquireError::Closed)
    }
    pub(crate) fn is_no_permits(&self) -> bool {
        matches!(self, TryAcquireError::NoPermits)
    }
}
impl fmt::Display for TryAcquireError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("can't acquire")
    }
}
impl std::error::Error for TryAcquireError {}

#[derive(Debug)]
pub struct AcquireError(());
impl fmt::Display for AcquireError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("semaphore closed")
    }
}
impl std::error::Error for AcquireError {}

pub(crate) struct Acquire<'a> {
    s: &'a Semaphore,
    n: usize,
}

impl Semaphore {
    pub(crate) const MAX_PERMITS: usize = usize::MAX >> 3;
    pub(crate) fn new(p: usize) -> Self {
        Self::const_new(p)
    }
    pub(crate) const fn const_new(p: usize) -> Self {
        Self { permits: Cell::new(p), closed: Cell::new(false) }
    }
    pub(crate) fn new_closed() -> Self {
        Self { permits: Cell::new(0), closed: Cell::new(true) }
    }
    pub(crate) const fn const_new_closed() -> Self {
        Self { permits: Cell::new(0), closed: Cell::new(true) }
    }
    pub(crate) fn available_permits(&self) -> usize {
        self.permits.get()
    }
    pub(crate) fn release(&self, n: usize) {
        self.permits.set(self.permits.get() + n);
        interfere(Pt::Release);
    }
    pub(crate) fn close(&self) {
        self.closed.set(true)
    }
    pub(crate) fn is_closed(&self) -> bool {
        self.closed.get()
    }
    pub(crate) fn forget_permits(&self, n: usize) -> usize {
        let n = if n < self.permits.get() { n } else { self.permits.get() };
        self.permits.set(self.permits.get() - n);
        n
    }
    pub(crate) fn try_acquire(&self, n: usize) -> Result<(), TryAcquireError> {
        interfere(Pt::Acquire);
        if self.closed.get() {
            Err(TryAcquireError::Closed)
        }
        else if self.permits.get() >= n {
            self.permits.set(self.permits.get() - n);
            Ok(())
        }
        else {
            Err(TryAcquireError::NoPermits)
        }
    }
    pub(crate) fn acquire(&self, n: usize) -> Acquire<'_> {
        Acquire { s: self, n }
    }
}

impl Future for Acquire<'_> {
    type Output = Result<(), AcquireError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.s.try_acquire(self.n) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(TryAcquireError::Closed) => Poll::Ready(Err(AcquireError(()))),
            Err(TryAcquireError::NoPermits) => Poll::Pending,
        }
    }
}
