pub(crate) mod batch_semaphore;
mod mutex;
pub use mutex::{Mutex, MutexGuard, OwnedMutexGuard, TryLockError, MappedMutexGuard, OwnedMappedMutexGuard};
mod rwlock;
pub use rwlock::{
    owned_read_guard::OwnedRwLockReadGuard, owned_write_guard::OwnedRwLockWriteGuard,
    owned_write_guard_mapped::OwnedRwLockMappedWriteGuard, read_guard::RwLockReadGuard, write_guard::RwLockWriteGuard,
    write_guard_mapped::RwLockMappedWriteGuard, RwLock,
};
mod semaphore;
pub use semaphore::{OwnedSemaphorePermit, Semaphore, SemaphorePermit};
pub use batch_semaphore::{AcquireError, TryAcquireError};
mod once_cell;
pub use once_cell::{OnceCell, SetError};
