//! Fallible lazy fields, all modes.
use crate::common::*;
use fieldx::fxstruct;

pub trait Fallible: Sized {
    /// There are `N` ways to read the field
    const READERS: u8;
    fn make() -> Self;
    fn read(&mut self, how: u8) -> Result<i32, MyErr>;
    /// Replace via mutable accessor
    fn modify(&mut self, x: i32) -> Result<i32, MyErr>;
    fn set(&mut self, x: i32) -> Option<i32>;
    fn clear(&mut self) -> Option<i32>;
    fn has(&mut self) -> bool;
}

#[fxstruct]
pub struct Plain {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate, fallible(error(MyErr)))]
    v: i32,
}
impl Plain {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(lazy, fallible(error(MyErr)), get(copy), get_mut, set, clearer, predicate)]
pub struct PlainInherited {
    v: i32,
}
impl PlainInherited {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(fallible(off, error(MyErr)))]
pub struct PlainClone {
    #[fieldx(lazy, get(clone), get_mut, set, clearer, predicate, fallible)]
    v: i32,
    #[fieldx(lazy, get(copy), get_mut)]
    infallible: i32,
}
impl PlainClone {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
    fn build_infallible(&self) -> i32 {
        1
    }
}

#[fxstruct(sync)]
pub struct Sync {
    #[fieldx(lazy, get, reader, get_mut, set, clearer, predicate, fallible(error(MyErr)))]
    v: i32,
}
impl Sync {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(sync, lazy, fallible(error(MyErr)), get(copy), reader, get_mut, set, clearer, predicate)]
pub struct SyncInherited {
    v: i32,
}
impl SyncInherited {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(sync, rc, fallible(off, error(MyErr)))]
pub struct SyncCounted {
    #[fieldx(lazy, get(clone), reader, get_mut, set, clearer, predicate, fallible)]
    v: i32,
}
impl SyncCounted {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}
pub struct Handle(std::sync::Arc<SyncCounted>);

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(lazy, get, reader, get_mut, set, clearer, predicate, fallible(error(MyErr)))]
    v: i32,
}
impl Async {
    async fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(r#async, lazy, fallible(error(MyErr)), get(copy), reader, get_mut, set, clearer, predicate)]
pub struct AsyncInherited {
    v: i32,
}
impl AsyncInherited {
    async fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

macro_rules! plain {
    ($t:ty, |$s:ident| $read:expr) => {
        impl Fallible for $t {
            const READERS: u8 = 1;
            fn make() -> Self {
                <$t>::new()
            }
            fn read(&mut self, _: u8) -> Result<i32, MyErr> {
                let $s = &*self;
                Ok($read)
            }
            fn modify(&mut self, x: i32) -> Result<i32, MyErr> {
                Ok(std::mem::replace(self.v_mut()?, x))
            }
            fn set(&mut self, x: i32) -> Option<i32> {
                self.set_v(x)
            }
            fn clear(&mut self) -> Option<i32> {
                self.clear_v()
            }
            fn has(&mut self) -> bool {
                self.has_v()
            }
        }
    };
}
plain!(Plain, |s| *s.v()?);
plain!(PlainInherited, |s| s.v()?);
plain!(PlainClone, |s| s.v()?);

macro_rules! locked {
    ($t:ty, $make:expr, $run:ident, |$me:ident| $s:expr, |$a:ident| $read:expr) => {
        impl Fallible for $t {
            const READERS: u8 = 2;
            fn make() -> Self {
                $make
            }
            fn read(&mut self, how: u8) -> Result<i32, MyErr> {
                let $me = &*self;
                let s = $s;
                if how == 0 {
                    let $a = $run(s.v())?;
                    Ok($read)
                }
                else {
                    Ok(*$run(s.read_v())?)
                }
            }
            fn modify(&mut self, x: i32) -> Result<i32, MyErr> {
                let $me = &*self;
                let s = $s;
                let mut guard = $run(s.v_mut())?;
                Ok(std::mem::replace(&mut *guard, x))
            }
            fn set(&mut self, x: i32) -> Option<i32> {
                let $me = &*self;
                $run($s.set_v(x))
            }
            fn clear(&mut self) -> Option<i32> {
                let $me = &*self;
                $run($s.clear_v())
            }
            fn has(&mut self) -> bool {
                let $me = &*self;
                $s.has_v()
            }
        }
    };
}
fn id<T>(v: T) -> T {
    v
}
locked!(Sync, Sync::new(), id, |me| me, |v| *v);
locked!(SyncInherited, SyncInherited::new(), id, |me| me, |v| v);
locked!(Handle, Handle(SyncCounted::new()), id, |me| &me.0, |v| v);
locked!(Async, Async::new(), run_now, |me| me, |v| *v);
locked!(AsyncInherited, AsyncInherited::new(), run_now, |me| me, |v| v);

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    #[derive(Clone, Copy, PartialEq)]
    enum How {
        Read(u8),
        Mutable,
    }

    /// One access in an arbitrary state: `requires` nothing, `ensures` the outcome is what the state and the builder define.
    fn access<T: Fallible>(s: &mut T, how: How) {
        let pre = g();
        let n = builds();
        let x = any();
        let r = match how {
            How::Read(n) => s.read(n),
            How::Mutable => s.modify(x),
        };
        match (pre, fail()) {
            (Some(v), _) => {
                assert!(builds() == n, "the builder is called for a field which has a value");
                assert!(r == Ok(v), "the current value is expected");
            }
            (None, Some(e)) => {
                assert!(builds() == n + 1, "the builder must be called once per access");
                assert!(r == Err(MyErr(e)), "the error of the builder must be returned as is");
            }
            (None, None) => {
                assert!(builds() == n + 1, "the builder must be called once");
                assert!(r == Ok(res()), "the value built is expected");
            }
        }
        if how == How::Mutable && r.is_ok() {
            set_g(Some(x));
        }
        assert!(s.has() == g().is_some(), "the predicate contradicts the field state");
    }

    fn fails(yes: bool) {
        set_fail(if yes { Some(any()) } else { None });
    }

    fn single<T: Fallible>(set: bool, failing: bool, how: How) {
        let mut s = ManuallyDrop::new(T::make());
        set_res(any());
        fails(failing);
        assert!(!s.has() && builds() == 0);
        if set {
            let x = any();
            assert!(s.set(x).is_none());
            set_g(Some(x));
        }
        access(&mut *s, how);
        cover!(true, "reachable");
        assert!(s.clear() == g(), "the operation has left a wrong value in the field");
        assert!(!s.has());
    }

    /// An error changes nothing: the next access is independent of it
    fn retry<T: Fallible>(failing: bool) {
        let mut s = ManuallyDrop::new(T::make());
        fails(true);
        access(&mut *s, How::Read(0));
        assert!(!s.has());
        set_res(any());
        fails(failing);
        access(&mut *s, How::Read(0));
        assert!(s.has() != failing);
        cover!(true, "reachable");
    }

    /// The setter and the clearer are fine after an error
    fn recover<T: Fallible>(how: How) {
        let mut s = ManuallyDrop::new(T::make());
        fails(true);
        access(&mut *s, how);
        assert!(s.clear().is_none(), "a failed builder has left a value behind");
        assert!(!s.has());
        let x = any();
        assert!(s.set(x).is_none(), "a failed builder has left a value behind");
        assert!(s.has());
        assert!(s.clear() == Some(x));
        assert!(builds() == 1);
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $m:ident: $t:ty, $reader:literal );+) => {
            $(
                pub mod $m {
                    use super::*;
                    #[kani::proof] #[kani::unwind(2)] pub fn read_ok() { single::<$t>(false, false, How::Read(0)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn read_err() { single::<$t>(false, true, How::Read(0)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn read_set() { single::<$t>(true, true, How::Read(0)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn reader_ok() { single::<$t>(false, false, How::Read($reader)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn reader_err() { single::<$t>(false, true, How::Read($reader)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn mutable_ok() { single::<$t>(false, false, How::Mutable) }
                    #[kani::proof] #[kani::unwind(2)] pub fn mutable_err() { single::<$t>(false, true, How::Mutable) }
                    #[kani::proof] #[kani::unwind(2)] pub fn mutable_set() { single::<$t>(true, true, How::Mutable) }
                    #[kani::proof] #[kani::unwind(2)] pub fn retry_ok() { retry::<$t>(false) }
                    #[kani::proof] #[kani::unwind(2)] pub fn retry_err() { retry::<$t>(true) }
                    #[kani::proof] #[kani::unwind(2)] pub fn recover_read() { recover::<$t>(How::Read($reader)) }
                    #[kani::proof] #[kani::unwind(2)] pub fn recover_mutable() { recover::<$t>(How::Mutable) }
                }
            )+
        };
    }
    contracts!(plain: Plain, 0; plain_inherited: PlainInherited, 0; plain_clone: PlainClone, 0; sync: Sync, 1;
        sync_inherited: SyncInherited, 1; sync_counted: Handle, 1; asynchronous: Async, 1;
        async_inherited: AsyncInherited, 1);

    #[kani::proof]
    #[kani::unwind(2)]
    pub fn infallible_opt_out() {
        let mut s = PlainClone::new();
        let v: i32 = s.infallible();
        let v: &mut i32 = s.infallible_mut();
        assert!(*v == 1);
        cover!(true, "reachable");
    }
}
