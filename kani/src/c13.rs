//! Post-build hooks and error types of struct builders.
use crate::{built::{same_str, Failure}, common::*};
use fieldx::{error::FieldXError, fxstruct};
use std::{mem::ManuallyDrop, rc::Rc, sync::Arc};

/// How many times the hook was called
static mut CALLS: u32 = 0;
/// What the hook has seen
static mut SEEN: (i32, Option<i32>, i32) = (0, None, 0);
/// What the hook is to do: either fail, or set the field `a`
static mut OUTCOME: Result<i32, i32> = Ok(0);

fn hook(a: i32, b: Option<i32>, c: i32) -> Result<i32, i32> {
    unsafe {
        CALLS += 1;
        SEEN = (a, b, c);
        OUTCOME
    }
}
fn hook_ok(a: i32, b: Option<i32>, c: i32) -> i32 {
    match hook(a, b, c) {
        Ok(x) => x,
        Err(_) => unreachable!(),
    }
}

pub trait HookErr {
    /// The hook failed with this code
    fn code(&self) -> Option<i32>;
    /// The required field is unset
    fn unset(&self, f: &str) -> bool;
}
impl HookErr for FieldXError {
    fn code(&self) -> Option<i32> {
        None
    }
    fn unset(&self, f: &str) -> bool {
        self.names(f)
    }
}
pub enum Wrapping {
    Wrapped(FieldXError),
    Hook(i32),
}
impl From<FieldXError> for Wrapping {
    fn from(e: FieldXError) -> Self {
        Wrapping::Wrapped(e)
    }
}
impl HookErr for Wrapping {
    fn code(&self) -> Option<i32> {
        match self {
            Wrapping::Hook(c) => Some(*c),
            _ => None,
        }
    }
    fn unset(&self, f: &str) -> bool {
        match self {
            Wrapping::Wrapped(e) => e.names(f),
            _ => false,
        }
    }
}
/// There is no conversion from `FieldXError`
pub enum Variant {
    Hook(i32),
    Unset(String),
    Other(String),
}
impl HookErr for Variant {
    fn code(&self) -> Option<i32> {
        match self {
            Variant::Hook(c) => Some(*c),
            _ => None,
        }
    }
    fn unset(&self, f: &str) -> bool {
        match self {
            Variant::Unset(s) => same_str(s, f),
            _ => false,
        }
    }
}

pub trait Hooked {
    const HOOK: bool = true;
    const FALLIBLE: bool = false;
    type Ptr;
    type Err: HookErr;
    fn make(a: Option<i32>, b: Option<i32>, c: Option<i32>) -> Result<Self::Ptr, Self::Err>;
    fn fields(s: &mut Self::Ptr) -> (i32, Option<i32>, i32);
}

macro_rules! hooked {
    ($name:ident, $ptr:ty, $err:ty;
     read: |$s:ident| $read:expr;
     $( hook $hook:ident -> |$o:ident, $ox:ident| $upd:expr; )?
     $( try_hook $fhook:ident -> |$e:ident, $ex:ident| $fupd:expr; wrap $wrap:expr; )?
    ) => {
        $(
            impl $name {
                fn $hook(mut self) -> Self {
                    let (a, b, c) = {
                        let $s = &mut self;
                        $read
                    };
                    let $ox = hook_ok(a, b, c);
                    {
                        let $o = &mut self;
                        $upd;
                    }
                    self
                }
            }
        )?
        $(
            impl $name {
                fn $fhook(mut self) -> Result<Self, $err> {
                    let (a, b, c) = {
                        let $s = &mut self;
                        $read
                    };
                    match hook(a, b, c) {
                        Ok($ex) => {
                            {
                                let $e = &mut self;
                                $fupd;
                            }
                            Ok(self)
                        }
                        Err(x) => {
                            // Nothing here depends on how the object is destroyed.
                            std::mem::forget(self);
                            Err($wrap(x))
                        }
                    }
                }
            }
        )?
        impl Hooked for $name {
            const HOOK: bool = hooked!(@is $( $hook )? $( $fhook )?);
            const FALLIBLE: bool = hooked!(@is $( $fhook )?);
            type Ptr = $ptr;
            type Err = $err;
            fn make(a: Option<i32>, b: Option<i32>, c: Option<i32>) -> Result<$ptr, $err> {
                let mut builder = $name::builder();
                if let Some(x) = a {
                    builder = builder.a(x);
                }
                if let Some(x) = b {
                    builder = builder.b(x);
                }
                if let Some(x) = c {
                    builder = builder.c(x);
                }
                builder.build()
            }
            fn fields($s: &mut $ptr) -> (i32, Option<i32>, i32) {
                $read
            }
        }
    };
    (@is) => { false };
    (@is $i:ident) => { true };
}

#[fxstruct(builder(post_build))]
pub struct Plain {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { Plain, Plain, FieldXError;
    read: |s| (s.a, s.b, s.c); hook post_build -> |s, x| s.a = x; }
#[fxstruct(builder(post_build(finish)))]
pub struct PlainNamed {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17), inner_mut, get(copy))]
    c: i32,
}
hooked! { PlainNamed, PlainNamed, FieldXError;
    read: |s| (s.a, s.b, s.c()); hook finish -> |s, x| s.a = x; }
#[fxstruct(builder(post_build(finish), error(Wrapping)))]
pub struct PlainErr {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { PlainErr, PlainErr, Wrapping;
    read: |s| (s.a, s.b, s.c); try_hook finish -> |s, x| s.a = x; wrap Wrapping::Hook; }
#[fxstruct(builder(error(Wrapping), post_build))]
pub struct PlainErrDefaultName {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { PlainErrDefaultName, PlainErrDefaultName, Wrapping;
    read: |s| (s.a, s.b, s.c); try_hook post_build -> |s, x| s.a = x; wrap Wrapping::Hook; }
#[fxstruct(builder(error(Variant, Variant::Unset), post_build))]
pub struct PlainVariant {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { PlainVariant, PlainVariant, Variant;
    read: |s| (s.a, s.b, s.c); try_hook post_build -> |s, x| s.a = x; wrap Variant::Hook; }
#[fxstruct(builder(error(Wrapping)))]
pub struct NoHook {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { NoHook, NoHook, Wrapping;
    read: |s| (s.a, s.b, s.c); }
#[fxstruct(sync, builder(error(Variant, Variant::Unset)))]
pub struct NoHookVariant {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(default(17), lock, get(copy))]
    c: i32,
}
hooked! { NoHookVariant, NoHookVariant, Variant;
    read: |s| (s.a, s.b(), s.c()); }
#[fxstruct(sync, builder(post_build))]
pub struct Synced {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(default(17), lock, get(copy))]
    c: i32,
}
hooked! { Synced, Synced, FieldXError;
    read: |s| (s.a, s.b(), s.c()); hook post_build -> |s, x| s.a = x; }
#[fxstruct(sync, builder(post_build(finish), error(Wrapping)))]
pub struct SyncedErr {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(default(17), lock, get(copy))]
    c: i32,
}
hooked! { SyncedErr, SyncedErr, Wrapping;
    read: |s| (s.a, s.b(), s.c()); try_hook finish -> |s, x| s.a = x; wrap Wrapping::Hook; }
#[fxstruct(r#async, builder(post_build(finish), error(Wrapping)))]
pub struct AsyncErr {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17), lock)]
    c: i32,
}
hooked! { AsyncErr, AsyncErr, Wrapping;
    read: |s| (s.a, *run_now(s.b.read()), *run_now(s.c.read())); try_hook finish -> |s, x| s.a = x; wrap Wrapping::Hook; }
#[fxstruct(rc, builder(post_build))]
pub struct Rced {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { Rced, Rc<Rced>, FieldXError;
    read: |s| (s.a, s.b, s.c); hook post_build -> |s, x| s.a = x; }
#[fxstruct(rc, builder(post_build(finish), error(Wrapping)))]
pub struct RcedErr {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { RcedErr, Rc<RcedErr>, Wrapping;
    read: |s| (s.a, s.b, s.c); try_hook finish -> |s, x| s.a = x; wrap Wrapping::Hook; }
#[fxstruct(rc, sync, builder(post_build, error(Variant, Variant::Unset)))]
pub struct RcedVariant {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(default(17), lock, get(copy))]
    c: i32,
}
hooked! { RcedVariant, Arc<RcedVariant>, Variant;
    read: |s| (s.a, s.b(), s.c()); try_hook post_build -> |s, x| s.a = x; wrap Variant::Hook; }
#[fxstruct(rc, sync, builder(post_build(finish)))]
pub struct RcedSync {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(default(17), lock, get(copy))]
    c: i32,
}
hooked! { RcedSync, Arc<RcedSync>, FieldXError;
    read: |s| (s.a, s.b(), s.c()); hook finish -> |s, x| s.a = x; }
#[fxstruct(rc, builder(error(Wrapping)))]
pub struct RcedNoHook {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(default(17))]
    c: i32,
}
hooked! { RcedNoHook, Rc<RcedNoHook>, Wrapping;
    read: |s| (s.a, s.b, s.c); }

#[cfg(kani)]
pub mod proofs {
    use super::*;

    fn given() -> (i32, Option<i32>, Option<i32>) {
        (any(), if any() { Some(any()) } else { None }, if any() { Some(any()) } else { None })
    }

    pub fn built<T: Hooked>() {
        let (a, b, c) = given();
        let x: i32 = any();
        unsafe { OUTCOME = Ok(x) }
        let Ok(s) = T::make(Some(a), b, c)
        else {
            panic!("the builder fails although the hook does not");
        };
        let mut s = ManuallyDrop::new(s);
        let init = (a, b, c.unwrap_or(17));
        unsafe {
            if T::HOOK {
                assert!(CALLS == 1, "the hook isn't called exactly once");
                assert!(SEEN == init, "the hook gets a wrong object");
                assert!(T::fields(&mut *s) == (x, init.1, init.2), "the builder returns not what the hook does");
            }
            else {
                assert!(T::fields(&mut *s) == init, "the builder has put a wrong value into a field");
            }
        }
        cover!(true, "reachable");
    }

    pub fn failed<T: Hooked>() {
        let (a, b, c) = given();
        let x: i32 = any();
        unsafe { OUTCOME = Err(x) }
        match T::make(Some(a), b, c) {
            Ok(s) => {
                std::mem::forget(s);
                panic!("the builder succeeds although the hook does not")
            }
            Err(e) => {
                let e = ManuallyDrop::new(e);
                assert!(e.code() == Some(x), "the error is not the hook's one");
            }
        }
        unsafe {
            assert!(CALLS == 1, "the hook isn't called exactly once");
            assert!(SEEN == (a, b, c.unwrap_or(17)), "the hook gets a wrong object");
        }
        cover!(true, "reachable");
    }

    pub fn missing<T: Hooked>() {
        let (_, b, c) = given();
        unsafe { OUTCOME = Ok(any()) }
        match T::make(None, b, c) {
            Ok(s) => {
                std::mem::forget(s);
                panic!("the builder succeeds without a required value")
            }
            Err(e) => {
                let e = ManuallyDrop::new(e);
                assert!(e.unset("a"), "the error is not the declared one");
            }
        }
        unsafe {
            assert!(CALLS == 0, "the hook is called although a value is missing");
        }
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $op:ident: $( $t:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    $(
                        #[kani::proof]
                        #[kani::unwind(4)]
                        pub fn $t() {
                            super::$op::<super::super::$t>()
                        }
                    )+
                }
            )+
        };
    }
    contracts! {
        built: Plain PlainNamed PlainErr PlainErrDefaultName PlainVariant NoHook NoHookVariant Synced SyncedErr AsyncErr Rced RcedErr
            RcedVariant RcedSync RcedNoHook;
        failed: PlainErr PlainErrDefaultName PlainVariant SyncedErr AsyncErr RcedErr RcedVariant;
        missing: Plain PlainNamed PlainErr PlainErrDefaultName PlainVariant NoHook NoHookVariant Synced SyncedErr AsyncErr Rced
            RcedErr RcedVariant RcedSync RcedNoHook;
    }

    /// A reference counted object reaches itself after the hook.
    macro_rules! rc_after_hook {
        ($( $name:ident: $t:ident, $rc:ident; )+) => {
            $(
                #[kani::proof]
                #[kani::unwind(4)]
                pub fn $name() {
                    unsafe { OUTCOME = Ok(any()) }
                    let Ok(s) = $t::make(Some(any()), None, None)
                    else {
                        panic!();
                    };
                    let s = ManuallyDrop::new(s);
                    assert!($rc::strong_count(&*s) == 1 && $rc::weak_count(&*s) == 1, "there is an extra reference");
                    match s.myself() {
                        Some(m) => {
                            let m = ManuallyDrop::new(m);
                            assert!($rc::ptr_eq(&*m, &*s), "the object doesn't reach itself");
                        }
                        None => panic!("the object doesn't reach itself"),
                    }
                    cover!(true, "reachable");
                }
            )+
        };
    }
    rc_after_hook! {
        rc_plain: Rced, Rc;
        rc_plain_fallible: RcedErr, Rc;
        rc_sync: RcedSync, Arc;
        rc_sync_fallible: RcedVariant, Arc;
    }
}
