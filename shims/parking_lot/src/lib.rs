//! Contract shim for `parking_lot`: the raw locks are replaced with their assumed contracts (mutual exclusion stated over
//! an explicit state), everything above them — guards, mapping, upgrade and downgrade — is the real `lock_api` crate that
//! the real `parking_lot` re-exports.
//!
//! Assumed contract of a raw lock: `lock_*` returns only when the state permits the mode and atomically takes it;
//! `try_lock_*` never waits; `unlock_*` gives the mode back; up- and downgrades are atomic.  Fairness isn't modelled.
use core::cell::Cell;
use fxghost::{blocked, interfere, tid, Pt};
use std::time::{Duration, Instant};

pub use ::lock_api;

#[cfg(feature = "send_guard")]
type GuardMarker = lock_api::GuardSend;
#[cfg(not(feature = "send_guard"))]
type GuardMarker = lock_api::GuardNoSend;

/// State of a raw RW lock; `excl` and `upg` hold owner's thread id + 1, `shared` holds the per-thread readers counts.
#[derive(Default)]
pub struct RawRwLock {
    excl:   Cell<u8>,
    upg:    Cell<u8>,
    shared: Cell<[u8; 2]>,
}
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}

impl RawRwLock {
    // Compared element-wise because array comparison is a `memcmp` loop for the verifier.
    fn no_shared(&self) -> bool {
        let s = self.shared.get();
        s[0] == 0 && s[1] == 0
    }
    fn can_shared(&self) -> bool {
        self.excl.get() == 0
    }
    fn can_upg(&self) -> bool {
        self.excl.get() == 0 && self.upg.get() == 0
    }
    fn can_excl(&self) -> bool {
        self.excl.get() == 0 && self.upg.get() == 0 && self.no_shared()
    }
    fn me(&self) -> u8 {
        1 + tid() as u8
    }
    fn take_shared(&self) {
        let mut s = self.shared.get();
        s[tid()] += 1;
        self.shared.set(s);
    }
    fn put_shared(&self) {
        let mut s = self.shared.get();
        assert!(s[tid()] > 0, "lock contract: releasing a read lock that isn't held");
        s[tid()] -= 1;
        self.shared.set(s);
    }
    fn put_excl(&self) {
        assert!(self.excl.get() == self.me(), "lock contract: releasing a write lock that isn't held");
        self.excl.set(0);
    }
    fn put_upg(&self) {
        assert!(self.upg.get() == self.me(), "lock contract: releasing an upgradable lock that isn't held");
        self.upg.set(0);
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock { excl: Cell::new(0), upg: Cell::new(0), shared: Cell::new([0, 0]) };
    type GuardMarker = GuardMarker;
    fn lock_shared(&self) {
        interfere(Pt::Acquire);
        if !self.can_shared() {
            blocked()
        }
        self.take_shared()
    }
    fn try_lock_shared(&self) -> bool {
        interfere(Pt::Acquire);
        let ok = self.can_shared();
        if ok {
            self.take_shared()
        }
        ok
    }
    unsafe fn unlock_shared(&self) {
        self.put_shared();
        interfere(Pt::Release);
    }
    fn lock_exclusive(&self) {
        interfere(Pt::Acquire);
        if !self.can_excl() {
            blocked()
        }
        self.excl.set(self.me())
    }
    fn try_lock_exclusive(&self) -> bool {
        interfere(Pt::Acquire);
        let ok = self.can_excl();
        if ok {
            self.excl.set(self.me())
        }
        ok
    }
    unsafe fn unlock_exclusive(&self) {
        self.put_excl();
        interfere(Pt::Release);
    }
    fn is_locked(&self) -> bool {
        !self.can_excl()
    }
    fn is_locked_exclusive(&self) -> bool {
        self.excl.get() != 0
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        lock_api::RawRwLock::unlock_shared(self)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        lock_api::RawRwLock::lock_shared(self)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
}

unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.put_excl();
        self.take_shared();
        interfere(Pt::Release);
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        interfere(Pt::Acquire);
        if !self.can_upg() {
            blocked()
        }
        self.upg.set(self.me())
    }
    fn try_lock_upgradable(&self) -> bool {
        interfere(Pt::Acquire);
        let ok = self.can_upg();
        if ok {
            self.upg.set(self.me())
        }
        ok
    }
    unsafe fn unlock_upgradable(&self) {
        self.put_upg();
        interfere(Pt::Release);
    }
    unsafe fn upgrade(&self) {
        interfere(Pt::Acquire);
        if !self.no_shared() {
            blocked()
        }
        self.put_upg();
        self.excl.set(self.me())
    }
    unsafe fn try_upgrade(&self) -> bool {
        interfere(Pt::Acquire);
        let ok = self.no_shared();
        if ok {
            self.put_upg();
            self.excl.set(self.me())
        }
        ok
    }
}

unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        lock_api::RawRwLockUpgrade::unlock_upgradable(self)
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.put_upg();
        self.take_shared();
        interfere(Pt::Release);
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.put_excl();
        self.upg.set(self.me());
        interfere(Pt::Release);
    }
}

unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockReadGuard<T> = lock_api::ArcRwLockReadGuard<RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub type ArcRwLockWriteGuard<T> = lock_api::ArcRwLockWriteGuard<RawRwLock, T>;

/// State of a raw mutex: the owner's thread id + 1.
#[derive(Default)]
pub struct RawMutex {
    owner: Cell<u8>,
}
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex { owner: Cell::new(0) };
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        interfere(Pt::Acquire);
        if self.owner.get() != 0 {
            blocked()
        }
        self.owner.set(1 + tid() as u8)
    }
    fn try_lock(&self) -> bool {
        interfere(Pt::Acquire);
        let ok = self.owner.get() == 0;
        if ok {
            self.owner.set(1 + tid() as u8)
        }
        ok
    }
    unsafe fn unlock(&self) {
        assert!(self.owner.get() == 1 + tid() as u8, "lock contract: releasing a mutex that isn't held");
        self.owner.set(0);
        interfere(Pt::Release);
    }
    fn is_locked(&self) -> bool {
        self.owner.get() != 0
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
