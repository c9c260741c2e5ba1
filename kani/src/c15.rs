//! Reference counted structs.
use crate::common::*;
use fieldx::{error::FieldXError, fxstruct};
use std::{
    mem::ManuallyDrop,
    rc::{Rc, Weak as RcWeak},
    sync::{Arc, Weak as ArcWeak},
};

/// A reference counting pointer
pub trait Handle: Clone {
    type Weak;
    fn strong(&self) -> usize;
    fn weak(&self) -> usize;
    fn at(&self) -> *const ();
    fn upgrade(w: &Self::Weak) -> Option<Self>;
}
impl<T> Handle for Rc<T> {
    type Weak = RcWeak<T>;
    fn strong(&self) -> usize {
        Rc::strong_count(self)
    }
    fn weak(&self) -> usize {
        Rc::weak_count(self)
    }
    fn at(&self) -> *const () {
        Rc::as_ptr(self) as *const ()
    }
    fn upgrade(w: &RcWeak<T>) -> Option<Self> {
        w.upgrade()
    }
}
impl<T> Handle for Arc<T> {
    type Weak = ArcWeak<T>;
    fn strong(&self) -> usize {
        Arc::strong_count(self)
    }
    fn weak(&self) -> usize {
        Arc::weak_count(self)
    }
    fn at(&self) -> *const () {
        Arc::as_ptr(self) as *const ()
    }
    fn upgrade(w: &ArcWeak<T>) -> Option<Self> {
        w.upgrade()
    }
}

/// Where the lazy builder found itself
static mut BUILT_AT: *const () = std::ptr::null();
fn built_at(p: *const ()) {
    unsafe { BUILT_AT = p }
}
/// How many references there are to the object being built
static mut EXPECT_STRONG: usize = 0;

/// A handle of an object of a reference counted struct
pub trait Counted: Handle {
    fn make() -> Self;
    fn made_by_builder() -> Self;
    fn me(&self) -> Option<Self>;
    fn me_weak(&self) -> Self::Weak;
    /// Uses all the helpers except for the mutable ones. `x` is a value to use, `fail` is if builders must fail.
    fn exercise(&self, x: i32);
    /// Changes the state via a shared reference
    fn change(&self, x: i32);
    fn observe(&self) -> i32;
    /// Makes a lazy field build itself
    fn build_lazy(&self) -> Option<i32>;
}

macro_rules! counted {
    ($t:ty; new: $new:expr; builder: $builder:expr; me: $me:ident $me_weak:ident;
     exercise |$e:ident, $ex:ident| $exercise:expr; change |$c:ident, $cx:ident| $change:expr; observe |$o:ident| $observe:expr;
     build |$b:ident| $build:expr) => {
        impl Counted for $t {
            fn make() -> Self {
                $new
            }
            fn made_by_builder() -> Self {
                match $builder {
                    Ok(s) => s,
                    Err(_) => panic!("the builder fails"),
                }
            }
            fn me(&self) -> Option<Self> {
                self.$me()
            }
            fn me_weak(&self) -> Self::Weak {
                self.$me_weak()
            }
            fn exercise(&self, $ex: i32) {
                let $e = self;
                $exercise;
            }
            fn change(&self, $cx: i32) {
                let $c = self;
                $change;
            }
            fn observe(&self) -> i32 {
                let $o = self;
                $observe
            }
            fn build_lazy(&self) -> Option<i32> {
                let $b = self;
                $build
            }
        }
    };
}

// ---- Plain

#[fxstruct(rc, builder)]
pub struct Plain {
    tok: Tok,
    #[fieldx(lazy, get, predicate)]
    a: i32,
    #[fieldx(lazy, get(copy))]
    by_ref: i32,
    #[fieldx(inner_mut, get(copy), set, default(5))]
    b: i32,
    #[fieldx(inner_mut, optional, get(copy), set, clearer, predicate)]
    c: i32,
    #[fieldx(get(clone))]
    d: Tok,
}
impl Plain {
    fn build_a(self: Rc<Self>) -> i32 {
        built_at(self.at());
        res()
    }
    fn build_by_ref(&self) -> i32 {
        self.b()
    }
}
counted! { Rc<Plain>; new: Plain::new(); builder: Plain::builder().tok(Tok(1)).d(Tok(2)).build(); me: myself myself_downgrade;
    exercise |s, x| { s.by_ref(); s.has_a(); s.a(); s.b(); s.set_b(x); s.c(); s.has_c(); s.set_c(x); s.clear_c(); std::mem::forget(s.d()) };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(*s.a())
}

/// Other names of the methods
#[fxstruct(rc("this", public), builder, no_new)]
pub struct Named {
    tok: Tok,
    #[fieldx(lazy, get(copy), predicate)]
    a: i32,
    #[fieldx(inner_mut, get(copy), set)]
    b: i32,
    #[fieldx(optional, default(3))]
    myself: i32,
    #[fieldx(builder(off))]
    d: Tok,
}
impl Named {
    fn build_a(self: Rc<Self>) -> i32 {
        built_at(self.at());
        res()
    }
    fn myself(&self) -> i32 {
        self.myself.unwrap()
    }
}
counted! { Rc<Named>; new: Named::builder().tok(Tok(0)).b(5).build().ok().unwrap(); builder: Named::builder().tok(Tok(1)).b(5).build(); me: this this_downgrade;
    exercise |s, x| { s.has_a(); s.a(); s.b(); s.set_b(x); assert!(s.myself() == 3); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(s.a())
}

/// With a hook
#[fxstruct(rc, builder(post_build(hook)))]
pub struct Hooked {
    tok: Tok,
    d: Tok,
    #[fieldx(inner_mut, get(copy), set)]
    b: i32,
    #[fieldx(lazy, get(copy))]
    a: i32,
}
impl Hooked {
    fn hook(mut self) -> Self {
        self.set_b(5);
        self
    }
    fn build_a(self: Rc<Self>) -> i32 {
        built_at(self.at());
        res()
    }
}
counted! { Rc<Hooked>; new: { let s = Hooked::new(); s.set_b(5); s }; builder: Hooked::builder().tok(Tok(1)).d(Tok(2)).b(4).build(); me: myself myself_downgrade;
    exercise |s, x| { s.a(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(s.a())
}

/// A hook which can fail, but doesn't
#[fxstruct(rc, sync, builder(post_build(hook), error(FieldXError)))]
pub struct TryHooked {
    tok: Tok,
    d: Tok,
    #[fieldx(lock, get(copy), set)]
    b: i32,
    #[fieldx(lazy, get(copy))]
    a: i32,
}
impl TryHooked {
    fn hook(self) -> Result<Self, FieldXError> {
        self.set_b(5);
        Ok(self)
    }
    fn build_a(&self) -> i32 {
        built_at(self as *const Self as *const ());
        res()
    }
}
counted! { Arc<TryHooked>; new: { let s = TryHooked::new(); s.set_b(5); s }; builder: TryHooked::builder().tok(Tok(1)).d(Tok(2)).b(4).build(); me: myself myself_downgrade;
    exercise |s, x| { s.a(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(s.a())
}

#[fxstruct(rc, builder)]
pub struct Generic<T: Default, U>
where
    U: Default + Copy,
{
    tok: T,
    d: T,
    #[fieldx(inner_mut, get(copy), set)]
    b: U,
    #[fieldx(lazy, get(clone))]
    a: i32,
}
impl<T: Default, U> Generic<T, U>
where
    U: Default + Copy,
{
    fn build_a(self: Rc<Self>) -> i32 {
        built_at(self.at());
        res()
    }
}
pub type GenericTok = Generic<Tok, i32>;
counted! { Rc<GenericTok>; new: { let s = GenericTok::new(); s.set_b(5); s }; builder: GenericTok::builder().tok(Tok(1)).d(Tok(2)).b(5).build(); me: myself myself_downgrade;
    exercise |s, x| { s.a(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(s.a())
}

/// Fails when it has to
#[fxstruct(rc, builder, fallible(off, error(MyErr)))]
pub struct Fallible {
    tok: Tok,
    d: Tok,
    #[fieldx(inner_mut, get(copy), set, default(5))]
    b: i32,
    #[fieldx(lazy, fallible, get(copy))]
    a: i32,
}
impl Fallible {
    fn build_a(self: Rc<Self>) -> Result<i32, MyErr> {
        built_at(self.at());
        match fail() {
            Some(e) => Err(MyErr(e)),
            None => Ok(res()),
        }
    }
}
counted! { Rc<Fallible>; new: Fallible::new(); builder: Fallible::builder().tok(Tok(1)).d(Tok(2)).build(); me: myself myself_downgrade;
    exercise |s, x| { s.a().is_ok(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| s.a().ok()
}

// ---- Sync

#[fxstruct(rc, sync, builder)]
pub struct Sync {
    tok: Tok,
    d: Tok,
    #[fieldx(lazy, get, predicate, set, writer)]
    a: i32,
    #[fieldx(lazy, get(copy), clearer)]
    by_ref: i32,
    #[fieldx(lock, get(copy), set, get_mut, default(5))]
    b: i32,
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    c: i32,
}
impl Sync {
    fn build_a(&self) -> i32 {
        built_at(self as *const Self as *const ());
        res()
    }
    fn build_by_ref(&self) -> i32 {
        self.b()
    }
}
counted! { Arc<Sync>; new: Sync::new(); builder: Sync::builder().tok(Tok(1)).d(Tok(2)).build(); me: myself myself_downgrade;
    exercise |s, x| { s.by_ref(); s.clear_by_ref(); s.has_a(); s.a(); s.set_a(x); s.write_a(); s.b(); s.set_b(x); s.b_mut(); s.c(); s.has_c(); s.set_c(x); s.clear_c(); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(*s.a())
}

#[fxstruct(rc, sync, builder)]
pub struct SyncFallible {
    tok: Tok,
    d: Tok,
    #[fieldx(lock, get(copy), set, default(5))]
    b: i32,
    #[fieldx(lazy, fallible(error(MyErr)), get(copy), get_mut)]
    a: i32,
}
impl SyncFallible {
    fn build_a(&self) -> Result<i32, MyErr> {
        built_at(self as *const Self as *const ());
        match fail() {
            Some(e) => Err(MyErr(e)),
            None => Ok(res()),
        }
    }
}
counted! { Arc<SyncFallible>; new: SyncFallible::new(); builder: SyncFallible::builder().tok(Tok(1)).d(Tok(2)).build(); me: myself myself_downgrade;
    exercise |s, x| { s.a().is_ok(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| s.a().ok()
}

#[fxstruct(rc("it"), sync, no_new, builder)]
pub struct SyncNamed {
    tok: Tok,
    d: Tok,
    #[fieldx(lock, get(copy), set, default(5))]
    b: i32,
    #[fieldx(lazy, get(copy))]
    a: i32,
}
impl SyncNamed {
    fn new() -> Arc<Self> {
        Self::builder().tok(Tok(0)).d(Tok(0)).build().ok().unwrap()
    }
    fn build_a(&self) -> i32 {
        built_at(self as *const Self as *const ());
        res()
    }
}
counted! { Arc<SyncNamed>; new: SyncNamed::new(); builder: SyncNamed::builder().tok(Tok(1)).d(Tok(2)).build(); me: it it_downgrade;
    exercise |s, x| { s.a(); s.b(); s.set_b(x); };
    change |s, x| { s.set_b(x); }; observe |s| s.b();
    build |s| Some(s.a())
}

// ---- Async

#[fxstruct(rc, r#async, builder)]
pub struct Async {
    tok: Tok,
    d: Tok,
    #[fieldx(lazy, get(copy))]
    a: i32,
    #[fieldx(lock, set, get(copy), default(5))]
    b: i32,
}
impl Async {
    async fn build_a(&self) -> i32 {
        built_at(self as *const Self as *const ());
        res()
    }
}
counted! { Arc<Async>; new: Async::new(); builder: Async::builder().tok(Tok(1)).d(Tok(2)).build(); me: myself myself_downgrade;
    exercise |s, x| { run_now(s.set_b(x)); };
    change |s, x| { run_now(s.set_b(x)); }; observe |s| run_now(s.b());
    build |s| Some(run_now(s.a()))
}

// ---- The hook is of the object to be

/// Lets the object know itself
#[fxstruct(rc, builder(post_build(finish)))]
pub struct SelfAware {
    #[fieldx(get(copy))]
    a: i32,
    #[fieldx(optional, builder(off))]
    me: RcWeak<SelfAware>,
}
impl SelfAware {
    fn finish(mut self) -> Self {
        self.a = self.a.wrapping_add(1);
        self.me = Some(self.myself_downgrade());
        self
    }
}
#[fxstruct(rc("it"), sync, builder(post_build(finish)))]
pub struct SyncSelfAware {
    #[fieldx(lock, get(copy))]
    a: i32,
    #[fieldx(optional, builder(off), get(clone))]
    me: ArcWeak<SyncSelfAware>,
}
impl SyncSelfAware {
    fn finish(self) -> Self {
        assert!(self.it().is_none(), "there's no object to refer to yet");
        *self.a.write() = self.a().wrapping_add(1);
        *self.me.write() = Some(self.it_downgrade());
        self
    }
}

// ---- Not reference counted, after all

#[fxstruct(rc(off), builder, default)]
pub struct Off {
    a: i32,
    #[fieldx(lazy, get(copy))]
    b: i32,
}
impl Off {
    fn build_b(&self) -> i32 {
        self.a
    }
    /// The name isn't taken
    fn myself(&self) -> i32 {
        1
    }
}
#[fxstruct(sync, rc(off), builder)]
pub struct OffSync {
    a: i32,
    #[fieldx(lazy, get(copy))]
    b: i32,
}
impl OffSync {
    fn build_b(&self) -> i32 {
        self.a
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;

    /// The only strong reference is ours, the only weak one is the object's own
    fn alone<T: Counted>(s: &T) {
        assert!(s.strong() == 1, "there is an extra strong reference");
        assert!(s.weak() == 1, "there is an extra weak reference");
    }

    fn identity<T: Counted>(s: T) {
        let s = ManuallyDrop::new(s);
        alone(&*s);
        let Some(me) = s.me()
        else {
            panic!("the object is alive but can't be reached")
        };
        assert!(me.at() == s.at(), "this is another object");
        assert!(s.strong() == 2 && s.weak() == 1);
        let other = (*s).clone();
        let Some(me2) = other.me()
        else {
            panic!("the object is alive but can't be reached")
        };
        assert!(me2.at() == s.at(), "this is another object");
        assert!(s.strong() == 4);
        drop(other);
        drop(me);
        drop(me2);
        let w = s.me_weak();
        assert!(s.strong() == 1 && s.weak() == 2, "the weak reference isn't weak");
        let Some(me) = T::upgrade(&w)
        else {
            panic!("the weak reference is of something else")
        };
        assert!(me.at() == s.at(), "this is another object");
        drop(me);
        drop(w);
        alone(&*s);
        cover!(true, "reachable");
    }

    fn destroy<T: Counted>(s: T) {
        let drops0 = drops();
        let w = s.me_weak();
        let last = if any() { s.me().unwrap() } else { s.clone() };
        drop(s);
        assert!(drops() == drops0, "the object is destroyed while there is a handle");
        let at = last.at();
        let up = T::upgrade(&w);
        match up {
            Some(up) => {
                assert!(up.at() == at, "this is another object");
                drop(up);
            }
            None => panic!("the weak reference gives nothing while the object is alive"),
        }
        drop(last);
        assert!(drops() == drops0 + 2, "the object hasn't been destroyed with the last handle");
        assert!(T::upgrade(&w).is_none(), "the object can be reached after it has been destroyed");
        std::mem::forget(w);
        cover!(true, "reachable");
    }

    /// Nothing is left by the helpers
    fn leaves_nothing<T: Counted>(s: T) {
        let s = ManuallyDrop::new(s);
        s.exercise(any());
        alone(&*s);
        s.exercise(any());
        alone(&*s);
        cover!(true, "reachable");
    }

    /// Handles are of the same object
    fn shared<T: Counted>(s: T) {
        let s = ManuallyDrop::new(s);
        assert!(s.observe() == 5);
        let other = ManuallyDrop::new((*s).clone());
        let me = ManuallyDrop::new(s.me().unwrap());
        let x = any();
        s.change(x);
        assert!(other.observe() == x && me.observe() == x && s.observe() == x, "the change isn't seen via a handle");
        let x = any();
        me.change(x);
        assert!(other.observe() == x && me.observe() == x && s.observe() == x, "the change isn't seen via a handle");
        cover!(true, "reachable");
    }

    /// The lazy builder gets the object itself, whether it succeeds or not
    fn builds<T: Counted>(s: T) {
        let s = ManuallyDrop::new(s);
        let x = any();
        set_res(x);
        set_fail(any());
        let r = s.build_lazy();
        assert!(r.is_none() || r == Some(x), "the lazy builder's value is lost");
        assert!(unsafe { BUILT_AT } == s.at(), "the lazy builder was given another object");
        alone(&*s);
        set_fail(None);
        built_at(std::ptr::null());
        assert!(s.build_lazy() == Some(x));
        assert!(unsafe { BUILT_AT }.is_null() == r.is_some(), "the number of builds is wrong");
        alone(&*s);
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $op:ident: $( $t:ident as $p:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    pub mod new {
                        use super::*;
                        $(
                            #[kani::proof]
                            #[kani::unwind(4)]
                            pub fn $t() {
                                super::super::$op(<$p<super::super::$t>>::make())
                            }
                        )+
                    }
                    pub mod builder {
                        use super::*;
                        $(
                            #[kani::proof]
                            #[kani::unwind(4)]
                            pub fn $t() {
                                super::super::$op(<$p<super::super::$t>>::made_by_builder())
                            }
                        )+
                    }
                }
            )+
        };
    }
    contracts! {
        identity: Plain as Rc Named as Rc Hooked as Rc GenericTok as Rc Fallible as Rc TryHooked as Arc Sync as Arc
            SyncFallible as Arc SyncNamed as Arc Async as Arc;
        destroy: Plain as Rc Named as Rc Hooked as Rc GenericTok as Rc Fallible as Rc TryHooked as Arc Sync as Arc
            SyncFallible as Arc SyncNamed as Arc Async as Arc;
        leaves_nothing: Plain as Rc Named as Rc Hooked as Rc GenericTok as Rc Fallible as Rc TryHooked as Arc Sync as Arc
            SyncFallible as Arc SyncNamed as Arc Async as Arc;
        shared: Plain as Rc Named as Rc Hooked as Rc GenericTok as Rc Fallible as Rc TryHooked as Arc Sync as Arc
            SyncFallible as Arc SyncNamed as Arc Async as Arc;
        builds: Plain as Rc Named as Rc Hooked as Rc GenericTok as Rc Fallible as Rc TryHooked as Arc Sync as Arc
            SyncFallible as Arc SyncNamed as Arc Async as Arc;
    }

    /// What the hook has taken with `myself_downgrade` refers to the finished object
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn from_hook() {
        let x: i32 = any();
        let s = ManuallyDrop::new(SelfAware::builder().a(x).build().ok().unwrap());
        assert!(s.a() == x.wrapping_add(1));
        let Some(me) = s.me.as_ref().unwrap().upgrade()
        else {
            panic!("the reference obtained in the hook is of something else")
        };
        assert!(Rc::as_ptr(&me) == Rc::as_ptr(&s), "this is another object");
        assert!(Rc::strong_count(&s) == 2 && Rc::weak_count(&s) == 2);
        std::mem::forget(me);
        cover!(true, "reachable");
    }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn from_hook_sync() {
        let x: i32 = any();
        let s = ManuallyDrop::new(SyncSelfAware::builder().a(x).build().ok().unwrap());
        assert!(s.a() == x.wrapping_add(1));
        let w = ManuallyDrop::new(s.me().unwrap());
        let Some(me) = w.upgrade()
        else {
            panic!("the reference obtained in the hook is of something else")
        };
        assert!(Arc::as_ptr(&me) == Arc::as_ptr(&s), "this is another object");
        std::mem::forget(me);
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(4)]
    pub fn off() {
        let x = any();
        let s: Result<Off, FieldXError> = Off::builder().a(x).build();
        let s = ManuallyDrop::new(s.ok().unwrap());
        assert!(s.b() == x && s.myself() == 1);
        let s: ManuallyDrop<Off> = ManuallyDrop::new(Off::new());
        assert!(s.b() == 0);
        cover!(true, "reachable");
    }
    #[kani::proof]
    #[kani::unwind(4)]
    pub fn off_sync() {
        let x = any();
        let s: Result<OffSync, FieldXError> = OffSync::builder().a(x).build();
        let s = ManuallyDrop::new(s.ok().unwrap());
        assert!(s.b() == x);
        let s: ManuallyDrop<OffSync> = ManuallyDrop::new(OffSync::new());
        assert!(s.b() == 0);
        cover!(true, "reachable");
    }
}
