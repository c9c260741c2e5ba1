//! Cloning, comparing, unwrapping, and converting of field containers and of structs made of them.
use crate::common::*;
use fieldx::{
    fxstruct,
    r#async::{FXProxyAsync, FXRwLockAsync},
    sync::{FXProxySync, FXRwLockSync},
};
use std::mem::ManuallyDrop;

/// A container, or a struct with a field `v`, which can be copied
pub trait Copied: Sized {
    /// The field can be built
    const LAZY: bool = false;
    /// The field can be empty
    const EMPTY: bool = true;
    fn make() -> Self;
    fn initial() -> Option<i32> {
        None
    }
    fn copy(&self) -> Self;
    fn put(&mut self, x: i32);
    fn erase(&mut self) {
        unreachable!()
    }
    /// Get the value, build it if needed
    fn value(&mut self) -> Option<i32>;
    /// Both presence and value, nothing is built
    fn peek(&mut self) -> Option<i32>;
}

#[macro_export]
macro_rules! copied {
    ($t:ty; lazy: $lazy:literal, empty: $empty:literal; make: $make:expr; init: $init:expr; put: |$p:ident, $x:ident| $put:expr;
     $( erase: |$e:ident| $erase:expr; )? read: |$r:ident| $read:expr; peek: |$k:ident| $peek:expr; ) => {
        impl Copied for $t {
            const LAZY: bool = $lazy;
            const EMPTY: bool = $empty;
            fn make() -> Self {
                $make
            }
            fn initial() -> Option<i32> {
                $init
            }
            fn copy(&self) -> Self {
                self.clone()
            }
            fn put(&mut self, $x: i32) {
                let $p = self;
                $put;
            }
            $(
                fn erase(&mut self) {
                    let $e = self;
                    $erase;
                }
            )?
            fn value(&mut self) -> Option<i32> {
                let $r = self;
                $read
            }
            fn peek(&mut self) -> Option<i32> {
                let $k = self;
                $peek
            }
        }
    };
}

// ---- Locks

copied! { FXRwLockSync<i32>; lazy: false, empty: false; make: FXRwLockSync::new(5); init: Some(5);
    put: |s, x| *s.write() = x; read: |s| Some(*s.read()); peek: |s| { let ok = s.try_write().is_some(); assert!(ok, "a lock is held"); Some(*s.read()) };
}
impl Copied for FXRwLockSync<Option<Tok>> {
    fn make() -> Self {
        FXRwLockSync::from(None)
    }
    fn copy(&self) -> Self {
        let n = clones();
        let c = self.clone();
        assert!(clones() - n <= 1);
        c
    }
    fn put(&mut self, x: i32) {
        std::mem::forget(self.write().replace(Tok(x)))
    }
    fn erase(&mut self) {
        std::mem::forget(self.write().take())
    }
    fn value(&mut self) -> Option<i32> {
        self.read().as_ref().map(|t| t.0)
    }
    fn peek(&mut self) -> Option<i32> {
        self.get_peek()
    }
}
trait GetPeek {
    fn get_peek(&mut self) -> Option<i32>;
}
impl GetPeek for FXRwLockSync<Option<Tok>> {
    fn get_peek(&mut self) -> Option<i32> {
        let inner: &parking_lot::RwLock<Option<Tok>> = self.as_ref();
        let guard = inner.try_write();
        guard.expect("a lock is held").as_ref().map(|t| t.0)
    }
}
copied! { FXRwLockAsync<i32>; lazy: false, empty: false; make: FXRwLockAsync::from(5); init: Some(5);
    put: |s, x| *run_now(s.write()) = x; read: |s| Some(*run_now(s.read()));
    peek: |s| { let r = s.as_ref().try_write().map(|g| Some(*g)); r.expect("a lock is held") };
}
copied! { FXRwLockAsync<Option<i32>>; lazy: false, empty: true; make: FXRwLockAsync::new(None); init: None;
    put: |s, x| run_now(s.write()).replace(x); erase: |s| run_now(s.write()).take(); read: |s| *run_now(s.read());
    peek: |s| { let r = s.as_ref().try_write().map(|g| *g); r.expect("a lock is held") };
}

// ---- Structs

#[derive(Clone)]
#[fxstruct(sync)]
pub struct SyncLazy {
    #[fieldx(lazy, get(copy), set, clearer, predicate, writer)]
    v: i32,
}
impl SyncLazy {
    fn build_v(&self) -> i32 {
        build()
    }
}
copied! { SyncLazy; lazy: true, empty: true; make: SyncLazy::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| Some(s.v());
    peek: |s| { let r = s.clear_peek(); r };
}
impl SyncLazy {
    fn clear_peek(&self) -> Option<i32> {
        let has = self.has_v();
        let r = self.write_v().clear();
        assert!(has == r.is_some(), "the predicate contradicts the field state");
        if let Some(x) = r {
            self.set_v(x);
        }
        r
    }
}

#[derive(Clone)]
#[fxstruct(sync)]
pub struct SyncFallible {
    #[fieldx(lazy, fallible(error(MyErr)), get(copy), set, clearer, predicate)]
    v: i32,
}
impl SyncFallible {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}
copied! { SyncFallible; lazy: true, empty: true; make: SyncFallible::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| Some(s.v().unwrap());
    peek: |s| { let r = s.clear_v(); if let Some(x) = r { s.set_v(x); } assert!(s.has_v() == r.is_some()); r };
}

#[derive(Clone, PartialEq)]
#[fxstruct]
pub struct PlainLazy {
    #[fieldx(lazy, get(copy), set, clearer, predicate)]
    v: i32,
}
impl PlainLazy {
    fn build_v(&self) -> i32 {
        build()
    }
}
copied! { PlainLazy; lazy: true, empty: true; make: PlainLazy::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| Some(s.v());
    peek: |s| { let r = s.clear_v(); if let Some(x) = r { s.set_v(x); } assert!(s.has_v() == r.is_some()); r };
}

#[derive(Clone, PartialEq)]
#[fxstruct]
pub struct PlainOpt {
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    v: i32,
}
copied! { PlainOpt; lazy: false, empty: true; make: PlainOpt::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| s.v(); peek: |s| { assert!(s.has_v() == s.v().is_some()); s.v() };
}

#[derive(Clone, PartialEq)]
#[fxstruct]
pub struct PlainInner {
    #[fieldx(inner_mut, optional, get(copy), set, clearer, predicate)]
    v: i32,
}
copied! { PlainInner; lazy: false, empty: true; make: PlainInner::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| s.v(); peek: |s| { assert!(s.has_v() == s.v().is_some()); s.v() };
}

#[derive(Clone, PartialEq)]
#[fxstruct(sync)]
pub struct SyncOpt {
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    v: i32,
}
copied! { SyncOpt; lazy: false, empty: true; make: SyncOpt::new(); init: None;
    put: |s, x| s.set_v(x); erase: |s| s.clear_v(); read: |s| s.v(); peek: |s| { assert!(s.has_v() == s.v().is_some()); s.v() };
}

#[derive(Clone, PartialEq)]
#[fxstruct(sync)]
pub struct SyncLocked {
    #[fieldx(lock, get(copy), set, default(5))]
    v: i32,
}
copied! { SyncLocked; lazy: false, empty: false; make: SyncLocked::new(); init: Some(5);
    put: |s, x| s.set_v(x); read: |s| Some(s.v()); peek: |s| Some(s.v());
}

#[derive(Clone, PartialEq)]
#[fxstruct(r#async)]
pub struct AsyncOpt {
    #[fieldx(optional, get, set, clearer, predicate)]
    v: i32,
}
copied! { AsyncOpt; lazy: false, empty: true; make: AsyncOpt::new(); init: None;
    put: |s, x| run_now(s.set_v(x)); erase: |s| run_now(s.clear_v()); read: |s| *run_now(s.v());
    peek: |s| { let r = *run_now(s.v()); assert!(run_now(s.has_v()) == r.is_some()); r };
}

/// Many fields at once
#[derive(Clone, PartialEq)]
#[fxstruct(sync)]
pub struct Many {
    #[fieldx(get(copy), set)]
    a: i32,
    #[fieldx(lock, get(copy), set)]
    b: i32,
    #[fieldx(optional, get(copy), set)]
    c: i32,
    #[fieldx(mode(plain), lazy, get(copy), set, predicate)]
    d: i32,
    #[fieldx(mode(plain), optional, get(copy), set)]
    e: i32,
}
impl Many {
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}

// ---- Containers of lazy fields directly. The builder's type is known to the macro only.
#[derive(Clone)]
#[fxstruct(sync)]
pub struct SyncOwner {
    #[fieldx(lazy, set, clearer, predicate, get(copy))]
    v: i32,
    #[fieldx(lazy, set, clearer, predicate, get(copy))]
    w: i32,
}
impl SyncOwner {
    fn build_v(&self) -> i32 {
        build()
    }
    fn build_w(&self) -> i32 {
        build()
    }
}
#[fxstruct(r#async)]
pub struct AsyncOwner {
    #[fieldx(lazy, set, clearer, predicate, get(copy))]
    v: i32,
}
impl AsyncOwner {
    async fn build_v(&self) -> i32 {
        must_not_build()
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;

    /// An arbitrary state: fresh, set, set and cleared, built.
    fn state<T: Copied>(s: &mut T, kind: u8) -> Option<i32> {
        set_res(any());
        set_g(T::initial());
        match kind {
            1 => {
                let x = any();
                s.put(x);
                set_g(Some(x));
            }
            2 if T::EMPTY => {
                s.put(any());
                s.erase();
                set_g(None);
            }
            3 if T::LAZY => {
                assert!(s.value() == Some(res()));
                set_g(Some(res()));
            }
            _ => (),
        }
        g()
    }

    /// The copy has the same value and presence; nothing is built
    fn same<T: Copied>(kind: u8) {
        let mut s = ManuallyDrop::new(T::make());
        let v = state(&mut *s, kind);
        let n = builds();
        let mut c = ManuallyDrop::new(s.copy());
        assert!(c.peek() == v, "the copy isn't the same");
        assert!(s.peek() == v, "the original has changed");
        assert!(builds() == n, "the lazy builder is called by copying");
        cover!(true, "reachable");
    }

    /// Changing one of them has no effect on another one
    fn independent<T: Copied>(kind: u8, of_copy: bool) {
        let mut s = ManuallyDrop::new(T::make());
        let v = state(&mut *s, kind);
        let mut c = ManuallyDrop::new(s.copy());
        let (changed, kept): (&mut T, &mut T) = if of_copy { (&mut *c, &mut *s) } else { (&mut *s, &mut *c) };
        let x = any();
        changed.put(x);
        assert!(kept.peek() == v, "the original and the copy are the same thing");
        assert!(changed.peek() == Some(x));
        if T::EMPTY {
            changed.erase();
            assert!(kept.peek() == v, "the original and the copy are the same thing");
            assert!(changed.peek().is_none());
        }
        cover!(true, "reachable");
    }

    /// The unset copy of an unset lazy field can be built, as well as the original; a copy of a set one isn't
    fn buildable<T: Copied>(kind: u8, of_copy: bool) {
        let mut s = ManuallyDrop::new(T::make());
        let v = state(&mut *s, kind);
        let n = builds();
        let mut c = ManuallyDrop::new(s.copy());
        let (changed, kept): (&mut T, &mut T) = if of_copy { (&mut *c, &mut *s) } else { (&mut *s, &mut *c) };
        let r = res();
        let expect = v.unwrap_or(r);
        let expect_n = n + v.is_none() as u8;
        assert!(changed.value() == Some(expect));
        assert!(builds() == expect_n, "a wrong number of builds");
        assert!(kept.peek() == v, "building affects both the copy and the original");
        assert!(changed.peek() == Some(expect));
        set_g(v);
        assert!(kept.value() == Some(expect));
        assert!(builds() == expect_n + v.is_none() as u8, "a wrong number of builds");
        cover!(true, "reachable");
    }

    /// Equality is the one of values inside, presence included
    fn equal<T: Copied + PartialEq>(ka: u8, kb: u8) {
        track(false);
        let mut a = ManuallyDrop::new(T::make());
        let va = state(&mut *a, ka);
        let mut b = ManuallyDrop::new(T::make());
        let vb = state(&mut *b, kb);
        let n = builds();
        assert!((*a == *b) == (va == vb), "comparison of containers isn't the one of values");
        assert!((*b == *a) == (va == vb), "comparison of containers isn't the one of values");
        assert!(*a == *a, "must be equal to itself");
        assert!(builds() == n, "the lazy builder is called by comparison");
        assert!(a.peek() == va && b.peek() == vb, "comparison changes a value");
        let c = ManuallyDrop::new(a.copy());
        assert!(*a == *c, "the copy isn't equal to the original");
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $n:ident: $t:ty; )+) => {
            pub mod copies {
                use super::*;
                $(
                    pub mod $n {
                        use super::*;
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn fresh() { same::<$t>(0) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn set() { same::<$t>(1) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn cleared() { same::<$t>(2) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn independent_fresh() { independent::<$t>(0, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn independent_set() { independent::<$t>(1, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn independent_fresh_orig() { independent::<$t>(0, false) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn independent_set_orig() { independent::<$t>(1, false) }
                    }
                )+
            }
        };
    }
    contracts! {
        lock_sync: FXRwLockSync<i32>; lock_sync_opt: FXRwLockSync<Option<Tok>>; lock_async: FXRwLockAsync<i32>;
        lock_async_opt: FXRwLockAsync<Option<i32>>; sync_lazy: SyncLazy; sync_fallible: SyncFallible; plain_lazy: PlainLazy;
        plain_opt: PlainOpt; plain_inner: PlainInner; sync_opt: SyncOpt; sync_locked: SyncLocked; async_opt: AsyncOpt;
    }
    macro_rules! lazy_contracts {
        ($( $n:ident: $t:ty; )+) => {
            pub mod lazies {
                use super::*;
                $(
                    pub mod $n {
                        use super::*;
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn fresh() { buildable::<$t>(0, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn fresh_orig() { buildable::<$t>(0, false) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn set() { buildable::<$t>(1, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn cleared() { buildable::<$t>(2, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn built() { buildable::<$t>(3, true) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn same_built() { same::<$t>(3) }
                    }
                )+
            }
        };
    }
    lazy_contracts! { sync_lazy: SyncLazy; sync_fallible: SyncFallible; plain_lazy: PlainLazy; }

    macro_rules! eq_contracts {
        ($( $n:ident: $t:ty; )+) => {
            pub mod comparison {
                use super::*;
                $(
                    pub mod $n {
                        use super::*;
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn both_set() { equal::<$t>(1, 1) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn both_fresh() { equal::<$t>(0, 0) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn one_set() { equal::<$t>(0, 1) }
                        #[kani::proof]
                        #[kani::unwind(3)]
                        pub fn cleared() { equal::<$t>(2, 1) }
                    }
                )+
            }
        };
    }
    eq_contracts! {
        lock_sync: FXRwLockSync<i32>; lock_sync_opt: FXRwLockSync<Option<Tok>>; lock_async: FXRwLockAsync<i32>;
        lock_async_opt: FXRwLockAsync<Option<i32>>; plain_lazy: PlainLazy;
        plain_opt: PlainOpt; plain_inner: PlainInner; sync_opt: SyncOpt; sync_locked: SyncLocked; async_opt: AsyncOpt;
    }

    // ---- The rest

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn unwrapping_locks() {
        let x: i32 = any();
        assert!(FXRwLockSync::new(x).into_inner() == x);
        assert!(FXRwLockSync::from(x).into_inner() == x);
        assert!(FXRwLockAsync::new(x).into_inner() == x);
        assert!(FXRwLockAsync::from(x).into_inner() == x);
        assert!(FXRwLockSync::<i32>::default().into_inner() == 0);
        assert!(FXRwLockAsync::<i32>::default().into_inner() == 0);
        let l = FXRwLockSync::new(0);
        *l.write() = x;
        assert!(l.into_inner() == x);
        let l = FXRwLockAsync::new(0);
        *run_now(l.write()) = x;
        assert!(l.into_inner() == x);
        let (d, c) = (drops(), clones());
        assert!(untok(FXRwLockSync::from(Tok(x)).into_inner()) == x);
        assert!(untok(FXRwLockAsync::from(Tok(x)).into_inner()) == x);
        assert!(d == drops() && c == clones(), "a value is dropped or duplicated");
        cover!(true, "reachable");
    }

    /// The inner lock is what protects the value
    #[kani::proof]
    #[kani::unwind(3)]
    pub fn inner_locks() {
        let l = FXRwLockSync::new(any::<i32>());
        let r: &parking_lot::RwLock<i32> = l.as_ref();
        let b: &parking_lot::RwLock<i32> = std::borrow::Borrow::borrow(&l);
        assert!(std::ptr::eq(r, &*l) && std::ptr::eq(b, &*l));
        let x = any();
        *r.write() = x;
        assert!(*l.read() == x && *b.read() == x);
        let a = FXRwLockAsync::new(any::<i32>());
        let r: &tokio::sync::RwLock<i32> = a.as_ref();
        let b: &tokio::sync::RwLock<i32> = std::borrow::Borrow::borrow(&a);
        assert!(std::ptr::eq(r, &*a) && std::ptr::eq(b, &*a));
        *run_now(r.write()) = x;
        assert!(*run_now(a.read()) == x && *run_now(b.read()) == x);
        cover!(true, "reachable");
    }

    fn sync_owner(set: bool) -> (SyncOwner, Option<i32>) {
        track(false);
        set_res(any());
        let s = SyncOwner::new();
        let mut v = None;
        if set {
            let x = any();
            s.set_v(x);
            v = Some(x);
        }
        (s, v)
    }

    pub mod unwrapping_lazies {
        use super::*;
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn sync_unset() {
            let (s, v) = sync_owner(false);
            assert!(s.v.into_inner() == v);
            assert!(builds() == 0);
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn sync_set() {
            let (s, v) = sync_owner(true);
            assert!(s.v.into_inner() == v);
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn sync_built() {
            let (s, _) = sync_owner(false);
            let r = s.v();
            assert!(s.v.into_inner() == Some(r));
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn async_unset() {
            let s = AsyncOwner::new();
            assert!(s.v.into_inner().is_none());
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn async_set() {
            let s = AsyncOwner::new();
            let x = any();
            run_now(s.set_v(x));
            assert!(s.v.into_inner() == Some(x));
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn async_cleared() {
            let s = AsyncOwner::new();
            run_now(s.set_v(any()));
            run_now(s.clear_v());
            assert!(s.v.into_inner().is_none());
            cover!(true, "reachable");
        }
    }

    pub mod lazy_comparison {
        use super::*;
        fn compare(set_v: bool, set_w: bool) {
            let (mut s, v) = sync_owner(set_v);
            let mut w = None;
            if set_w {
                let x = any();
                s.w = <_>::clone(&s.w);
                s.set_w(x);
                w = Some(x);
            }
            let t = sync_owner(false).0;
            let mut t_v = None;
            if set_w {
                t.set_v(w.unwrap());
                t_v = w;
            }
            assert!((s.v == t.v) == (v == t_v), "comparison of containers isn't the one of values");
            assert!(builds() == 0, "the lazy builder is called by comparison");
            assert!(s.has_v() == v.is_some() && t.has_v() == t_v.is_some());
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn both_set() { compare(true, true) }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn one_set() { compare(true, false) }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn another_set() { compare(false, true) }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn none_set() { compare(false, false) }
    }

    /// All the fields of a struct
    #[kani::proof]
    #[kani::unwind(3)]
    pub fn many() {
        let mut s = ManuallyDrop::new(Many::new());
        let x: [i32; 5] = any();
        s.set_a(x[0]);
        s.set_b(x[1]);
        s.set_c(x[2]);
        let t = ManuallyDrop::new((*s).clone());
        assert!(*t == *s);
        assert!(t.a() == x[0] && t.b() == x[1] && t.c() == Some(x[2]) && !t.has_d() && t.e().is_none());
        s.set_d(x[3]);
        assert!(*t != *s);
        s.set_e(x[4]);
        let t = ManuallyDrop::new((*s).clone());
        assert!(*t == *s);
        assert!(t.a() == x[0] && t.b() == x[1] && t.c() == Some(x[2]) && t.d() == x[3] && t.e() == Some(x[4]));
        s.set_b(!x[1]);
        assert!(t.b() == x[1] && *t != *s);
        cover!(true, "reachable");
    }

    // ---- Copying while others are changing the original: the copy is a state the original was in
    static mut S: *const SyncOwner = std::ptr::null();
    static mut SEEN: [Option<i32>; 3] = [None; 3];
    static mut N: usize = 0;
    fn env(pt: Pt) {
        unsafe {
            if N < 2 {
                let s = &*S;
                match any::<u8>() {
                    0 => {
                        let x = any();
                        s.set_v(x);
                        N += 1;
                        SEEN[N] = Some(x);
                    }
                    1 => {
                        s.clear_v();
                        N += 1;
                        SEEN[N] = None;
                    }
                    _ => (),
                }
            }
        }
    }
    pub mod concurrent {
        use super::*;
        fn copying(set: bool) {
            let (s, v) = sync_owner(set);
            let s = ManuallyDrop::new(s);
            unsafe {
                S = &*s;
                SEEN[0] = v;
                N = 0;
            }
            install(env);
            let c = ManuallyDrop::new(s.v.clone());
            quiesce();
            let has = c.is_set();
            let got = ManuallyDrop::into_inner(c).into_inner();
            assert!(has == got.is_some(), "the copy is inconsistent");
            unsafe {
                assert!(got == SEEN[0] || (N > 0 && got == SEEN[1]) || (N > 1 && got == SEEN[2]), "the copy is what the original has never been");
                assert!(s.clear_v() == SEEN[N], "copying has changed the original");
            }
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn unset() { copying(false) }
        #[kani::proof]
        #[kani::unwind(3)]
        pub fn set() { copying(true) }
    }
}
