//! Interference contracts: a thread-safe container is checked one operation at a time against an arbitrary environment.
//!
//! * *linearization*: before every lock acquisition of ours, and inside of our callbacks, the environment takes one
//!   arbitrary complete operation.  Every operation (ours and environment's) must have the effect and the result its
//!   sequential contract prescribes with respect to the abstract value [`g`].
//! * *publication*: after every lock release of ours the environment takes one arbitrary complete operation.  By the time
//!   we're done the predicate must agree with the actual presence of the value.
use crate::common::*;

/// What the harnesses need of a struct with a field `v`.
pub trait Subject: Sized + 'static {
    /// The field can be built.
    const LAZY: bool = true;
    /// The field can be cleared.
    const CLEARABLE: bool = true;
    fn make() -> Self;
    /// What `make` sets the field to
    fn initial() -> Option<i32> {
        None
    }
    /// Reads the field. `None` is only possible for optionals.
    fn read(&self) -> Option<i32> {
        unreachable!()
    }
    /// Obtain a read guard, call `f`, check that the value hasn't changed.
    fn hold(&self, _: fn()) -> Option<i32> {
        unreachable!()
    }
    /// Replace the value via mutable accessor, returns the value replaced. Calls `f` while holding the guard.
    fn modify(&self, _: i32, _: fn()) -> Option<i32> {
        unreachable!()
    }
    fn set(&self, _: i32) -> Option<i32> {
        unreachable!()
    }
    fn clear(&self) -> Option<i32> {
        unreachable!()
    }
    fn has(&self) -> bool {
        unreachable!()
    }
    /// Via writer
    fn wr_store(&self, _: i32, _: fn()) -> Option<i32> {
        unreachable!()
    }
    fn wr_clear(&self, _: fn()) -> Option<i32> {
        unreachable!()
    }
}

/// A lazy field of a sync struct
#[macro_export]
macro_rules! sync_lazy {
    ($t:ty, $tt:ty, $make:expr, |$s:ident| $read:expr, $rd:ident, $set:ident, $clear:ident, $has:ident) => {
        impl $crate::subject::Subject for $t {
            fn make() -> Self {
                $make
            }
            fn read(&self) -> Option<i32> {
                let $s = self;
                Some($read)
            }
            fn hold(&self, f: fn()) -> Option<i32> {
                let guard = self.$rd();
                let r = *guard;
                f();
                assert!(*guard == r);
                Some(r)
            }
            fn modify(&self, x: i32, f: fn()) -> Option<i32> {
                let mut guard = self.v_mut();
                let r = *guard;
                f();
                assert!(*guard == r);
                *guard = x;
                f();
                assert!(*guard == x);
                Some(r)
            }
            fn set(&self, v: i32) -> Option<i32> {
                self.$set(v)
            }
            fn clear(&self) -> Option<i32> {
                self.$clear()
            }
            fn has(&self) -> bool {
                self.$has()
            }
            fn wr_store(&self, v: i32, f: fn()) -> Option<i32> {
                let mut guard = self.write_v();
                f();
                guard.store(v)
            }
            fn wr_clear(&self, f: fn()) -> Option<i32> {
                let guard = self.write_v();
                f();
                guard.clear()
            }
        }
    };
}

/// A lazy field of an async struct
#[macro_export]
macro_rules! async_lazy {
    ($t:ty, |$s:ident| $read:expr, $rd:ident, $set:ident, $clear:ident, $has:ident) => {
        impl $crate::subject::Subject for $t {
            fn make() -> Self {
                <$t>::new()
            }
            fn read(&self) -> Option<i32> {
                let $s = self;
                Some($read)
            }
            fn hold(&self, f: fn()) -> Option<i32> {
                let guard = $crate::common::run_now(self.$rd());
                let r = *guard;
                f();
                assert!(*guard == r);
                Some(r)
            }
            fn modify(&self, x: i32, f: fn()) -> Option<i32> {
                let mut guard = $crate::common::run_now(self.v_mut());
                let r = *guard;
                f();
                assert!(*guard == r);
                *guard = x;
                f();
                assert!(*guard == x);
                Some(r)
            }
            fn set(&self, v: i32) -> Option<i32> {
                $crate::common::run_now(self.$set(v))
            }
            fn clear(&self) -> Option<i32> {
                $crate::common::run_now(self.$clear())
            }
            fn has(&self) -> bool {
                self.$has()
            }
            fn wr_store(&self, v: i32, f: fn()) -> Option<i32> {
                let mut guard = $crate::common::run_now(self.write_v());
                f();
                guard.store(v)
            }
            fn wr_clear(&self, f: fn()) -> Option<i32> {
                let guard = $crate::common::run_now(self.write_v());
                f();
                guard.clear()
            }
        }
    };
}

/// What a guard gives access to: a value, or an optional one.
pub trait Content {
    fn opt(&self) -> Option<i32>;
    /// Replace the value if there is one
    fn put(&mut self, x: i32) -> Option<i32>;
    fn store(&mut self, x: i32) -> Option<i32>;
    fn remove(&mut self) -> Option<i32>;
}
impl Content for i32 {
    fn opt(&self) -> Option<i32> {
        Some(*self)
    }
    fn put(&mut self, x: i32) -> Option<i32> {
        Some(std::mem::replace(self, x))
    }
    fn store(&mut self, x: i32) -> Option<i32> {
        self.put(x)
    }
    fn remove(&mut self) -> Option<i32> {
        unreachable!()
    }
}
impl Content for Option<i32> {
    fn opt(&self) -> Option<i32> {
        *self
    }
    fn put(&mut self, x: i32) -> Option<i32> {
        self.as_mut().map(|v| std::mem::replace(v, x))
    }
    fn store(&mut self, x: i32) -> Option<i32> {
        self.replace(x)
    }
    fn remove(&mut self) -> Option<i32> {
        self.take()
    }
}

/// A lock-protected field which isn't lazy; operations not listed aren't provided by the field.
#[macro_export]
macro_rules! locked {
    ($t:ty; clearable: $clearable:literal; make: $make:expr; init: $init:expr; $( $rest:tt )*) => {
        impl $crate::subject::Subject for $t {
            const LAZY: bool = false;
            const CLEARABLE: bool = $clearable;
            fn make() -> Self {
                $make
            }
            fn initial() -> Option<i32> {
                $init
            }
            $crate::locked!(@op $( $rest )*);
        }
    };
    (@op read: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn read(&self) -> Option<i32> {
            let $s = self;
            let r = $e;
            $crate::subject::Content::opt(&r)
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op hold: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn hold(&self, f: fn()) -> Option<i32> {
            let $s = self;
            let guard = $e;
            let r = $crate::subject::Content::opt(&*guard);
            f();
            assert!($crate::subject::Content::opt(&*guard) == r, "the value has changed while a guard is alive");
            r
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op modify: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn modify(&self, x: i32, f: fn()) -> Option<i32> {
            let $s = self;
            let mut guard = $e;
            let r = $crate::subject::Content::opt(&*guard);
            f();
            assert!($crate::subject::Content::opt(&*guard) == r, "the value has changed while a guard is alive");
            let r = $crate::subject::Content::put(&mut *guard, x);
            f();
            assert!(r.is_none() || $crate::subject::Content::opt(&*guard) == Some(x), "the value has changed while a guard is alive");
            r
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op writer: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn wr_store(&self, x: i32, f: fn()) -> Option<i32> {
            let $s = self;
            let mut guard = $e;
            f();
            $crate::subject::Content::store(&mut *guard, x)
        }
        fn wr_clear(&self, f: fn()) -> Option<i32> {
            let $s = self;
            let mut guard = $e;
            f();
            $crate::subject::Content::remove(&mut *guard)
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op set: |$s:ident, $x:ident| $e:expr; $( $rest:tt )*) => {
        fn set(&self, $x: i32) -> Option<i32> {
            let $s = self;
            let r = $e;
            $crate::subject::Content::opt(&r)
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op clear: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn clear(&self) -> Option<i32> {
            let $s = self;
            $e
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op has: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn has(&self) -> bool {
            let $s = self;
            $e
        }
        $crate::locked!(@op $( $rest )*);
    };
    (@op) => {};
}

#[cfg(kani)]
pub mod ops {
    use super::*;

    static mut SUBJ: *const () = std::ptr::null();

    pub fn subj<S: Subject>() -> &'static S {
        unsafe { &*(SUBJ as *const S) }
    }

    fn nothing() {}

    pub fn op_read<S: Subject>(s: &S) {
        let r = s.read();
        assert!(!tracked() || g() == r, "a reader has got a value that isn't the current one");
        assert!(!S::LAZY || r.is_some());
    }
    pub fn op_hold<S: Subject>(s: &S) {
        let r = s.hold(poke);
        assert!(!tracked() || g() == r, "a value was replaced while being read");
    }
    pub fn op_modify<S: Subject>(s: &S) {
        let x = any();
        let r = s.modify(x, poke);
        assert!(!tracked() || g() == r, "mutable accessor must give access to the current value");
        if r.is_some() {
            set_g(Some(x));
        }
    }
    pub fn op_set<S: Subject>(s: &S) {
        let x = any();
        let r = s.set(x);
        assert!(!tracked() || r == g(), "the setter must return the value it replaces");
        set_g(Some(x));
    }
    pub fn op_clear<S: Subject>(s: &S) {
        let r = s.clear();
        assert!(!tracked() || r == g(), "the clearer must return the value it removes");
        set_g(None);
    }
    pub fn op_has<S: Subject>(s: &S) {
        let r = s.has();
        assert!(!tracked() || r == g().is_some(), "the predicate contradicts the field state");
    }
    pub fn op_wr_store<S: Subject>(s: &S) {
        let x = any();
        let r = s.wr_store(x, poke);
        assert!(!tracked() || r == g(), "the writer must return the value it replaces");
        set_g(Some(x));
    }
    pub fn op_wr_clear<S: Subject>(s: &S) {
        let r = s.wr_clear(poke);
        assert!(!tracked() || r == g(), "the writer must return the value it removes");
        set_g(None);
    }

    /// Give the environment a chance while we're holding a guard.
    fn poke() {
        interfere(Pt::Callback)
    }

    /// Environment's step of the linearization contract.
    pub fn env_lin<S: Subject>(pt: Pt) {
        if pt != Pt::Release {
            let s = subj::<S>();
            let op: u8 = any();
            match op {
                0 => op_read(s),
                1 => op_set(s),
                2 => {
                    if S::CLEARABLE {
                        op_clear(s)
                    }
                }
                3 if S::CLEARABLE => op_has(s),
                _ => (),
            }
        }
    }

    /// Environment's step of the linearization contract for tasks.  Readers of the environment are represented by what
    /// their contract lets them do: an unset field becomes built.
    pub fn env_lin_task<S: Subject>(pt: Pt) {
        if pt != Pt::Release {
            let s = subj::<S>();
            let op: u8 = any();
            match op {
                0 => op_set(s),
                1 => {
                    if S::CLEARABLE {
                        op_clear(s)
                    }
                }
                2 if S::LAZY => {
                    let r = s.set(res());
                    assume(r.is_none());
                    assert!(r == g(), "a value was stored while the lazy builder was running");
                    set_g(Some(res()));
                }
                _ => (),
            }
        }
    }
    pub fn env_none<S: Subject>(pt: Pt) {}

    /// Environment's step of the publication contract.
    pub fn env_pub<S: Subject>(pt: Pt) {
        if pt == Pt::Release {
            let s = subj::<S>();
            let op: u8 = any();
            match op {
                0 => assert!(s.read().is_none() || s.has(), "a value can be read but the predicate denies it"),
                1 => {
                    s.set(any());
                    assert!(s.has(), "a value was set but the predicate denies it");
                }
                2 => {
                    s.clear();
                    assert!(!s.has(), "a value was removed but the predicate claims there is one");
                }
                _ => (),
            }
        }
    }

    /// Same for tasks
    pub fn env_pub_task<S: Subject>(pt: Pt) {
        if pt == Pt::Release {
            let s = subj::<S>();
            let op: u8 = any();
            match op {
                0 => {
                    s.set(any());
                    assert!(s.has(), "a value was set but the predicate denies it");
                }
                1 => {
                    s.clear();
                    assert!(!s.has(), "a value was removed but the predicate claims there is one");
                }
                _ => (),
            }
        }
    }

    /// An arbitrary valid state of the subject.
    ///
    /// The subject stays where the harness has placed it: the verifier is way better with typed objects than with
    /// anonymous heap memory.
    pub fn setup<S: Subject>(s: &S, set: bool, env: fn(Pt)) -> &'static S {
        let s: &'static S = unsafe { &*(s as *const S) };
        unsafe { SUBJ = s as *const S as *const () };
        set_res(any());
        set_g(S::initial());
        if set {
            let x = any();
            let r = s.set(x);
            assert!(r == S::initial(), "a new field has a wrong value");
            set_g(Some(x));
        }
        install(env);
        s
    }

    /// Nobody else is around: the final state must be the abstract one and all the locks must be released.
    pub fn finish<S: Subject>(s: &S) {
        quiesce();
        if S::CLEARABLE {
            assert!(s.has() == g().is_some(), "the predicate contradicts the field state");
            assert!(s.clear() == g(), "the final value isn't what the operations define");
            assert!(!s.has(), "the predicate contradicts the field state");
        }
        else {
            assert!(s.set(any()) == g(), "the final value isn't what the operations define");
        }
    }

    pub fn finish_pub<S: Subject>(s: &S) {
        quiesce();
        let has = s.has();
        assert!(s.clear().is_some() == has, "the predicate contradicts the field state");
    }

    #[macro_export]
    macro_rules! interference_contracts {
        ($m:ident: $t:ty, $env:ident, $fin:ident, $track:expr; $( $op:ident ),+) => {
            pub mod $m {
                use super::*;
                use $crate::{common::*, subject::{*, ops::*}};
                $(
                    pub mod $op {
                        use super::*;
                        #[kani::proof]
                        #[kani::unwind(2)]
                        pub fn unset() {
                            track($track);
                            let s = std::mem::ManuallyDrop::new(<$t>::make());
                            let s = setup::<$t>(&s, false, $env::<$t>);
                            $crate::subject::ops::$op(s);
                            cover!(true, "reachable");
                            $fin(s);
                        }
                        #[kani::proof]
                        #[kani::unwind(2)]
                        pub fn set() {
                            track($track);
                            let s = std::mem::ManuallyDrop::new(<$t>::make());
                            let s = setup::<$t>(&s, true, $env::<$t>);
                            $crate::subject::ops::$op(s);
                            cover!(true, "reachable");
                            $fin(s);
                        }
                    }
                )+
            }
        };
    }
}
