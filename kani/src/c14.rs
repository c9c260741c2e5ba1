//! Fresh objects: what `new()` and `Default::default()` make.
use crate::{built::*, common::*, forms, forms::Forms, peek_lazy, peek_lazy_async};
use fieldx::fxstruct;
use std::{cell::RefCell, rc::Rc, sync::Arc};

/// Length of a string, provided its contents are as expected
fn text(s: &str) -> Option<i32> {
    assert!(same_str(s, "") || same_str(s, "seven77"), "a string has a wrong contents");
    Some(s.len() as i32)
}
fn no_set<T>() -> T {
    unreachable!()
}

/// How to compute a default
pub const ELEVEN: i32 = 11;
pub static TWELVE: i32 = 12;
pub fn thirteen() -> i32 {
    13
}
pub mod nested {
    pub const FOURTEEN: i32 = 14;
    pub fn twice(x: i32) -> i32 {
        x * 2
    }
}
#[derive(Clone, Copy, Default, PartialEq)]
pub enum Kind {
    #[default]
    Zero,
    One,
}

#[fxstruct(default)]
pub struct Values {
    #[fieldx(default(7), set)]
    a: i32,
    #[fieldx(default(ELEVEN), set)]
    b: i32,
    #[fieldx(default(thirteen()), set)]
    c: i32,
    #[fieldx(default(crate::c14::nested::twice(21)), set)]
    d: i32,
    #[fieldx(default(nested::FOURTEEN), set)]
    e: i32,
    #[fieldx(default(Self::SIXTEEN), set)]
    f: i32,
    #[fieldx(default(off, 5), set)]
    g: i32,
    #[fieldx(set)]
    h: i32,
}
impl Values {
    const SIXTEEN: i32 = 16;
}
forms! { Values, Values::new();
    Some(7); set |s, x| Some(s.set_a(x)); view |s| Some(s.a),
    Some(11); set |s, x| Some(s.set_b(x)); view |s| Some(s.b),
    Some(13); set |s, x| Some(s.set_c(x)); view |s| Some(s.c),
    Some(42); set |s, x| Some(s.set_d(x)); view |s| Some(s.d),
    Some(14); set |s, x| Some(s.set_e(x)); view |s| Some(s.e),
    Some(16); set |s, x| Some(s.set_f(x)); view |s| Some(s.f),
    Some(0); set |s, x| Some(s.set_g(x)); view |s| Some(s.g),
    Some(0); set |s, x| Some(s.set_h(x)); view |s| Some(s.h),
}

/// Types of defaults
#[fxstruct]
pub struct Types {
    #[fieldx(default("seven77"))]
    a: String,
    #[fieldx(optional, default("seven77"))]
    b: String,
    #[fieldx(optional)]
    c: String,
    #[fieldx(default(true))]
    d: bool,
    #[fieldx(default('x'))]
    e: char,
    #[fieldx(default(Kind::One))]
    f: Kind,
    #[fieldx(default(Some(9)), set)]
    g: Option<i32>,
    #[fieldx(default(vec_of(3)))]
    h: Vec<i32>,
}
fn vec_of(n: i32) -> Vec<i32> {
    Vec::from([n])
}
forms! { Types, Types::new();
    Some(7); set |s, x| no_set(); view |s| text(&s.a),
    Some(7); set |s, x| no_set(); view |s| s.b.as_ref().and_then(|t| text(t)),
    None; set |s, x| no_set(); view |s| s.c.as_ref().and_then(|t| text(t)),
    Some(1); set |s, x| no_set(); view |s| Some(s.d as i32),
    Some('x' as i32); set |s, x| no_set(); view |s| Some(s.e as i32),
    Some(1); set |s, x| no_set(); view |s| Some(s.f as i32),
    Some(9); set |s, x| no_set(); view |s| s.g,
    Some(3); set |s, x| no_set(); view |s| s.h.first().copied(),
}

/// Kinds of fields
#[fxstruct(default)]
pub struct Plain {
    #[fieldx(lazy, predicate, clearer, set)]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, default(17))]
    b: i32,
    #[fieldx(predicate, set)]
    c: i32,
    #[fieldx(clearer, set, default(18))]
    d: i32,
    #[fieldx(inner_mut, get(copy), set)]
    e: i32,
    #[fieldx(inner_mut, get(copy), set, default(Self::five()))]
    f: i32,
    #[fieldx(inner_mut, optional, get(copy), set)]
    g: i32,
    #[fieldx(inner_mut, optional, get(copy), set, default(19))]
    h: i32,
}
impl Plain {
    fn five() -> i32 {
        5
    }
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        must_not_build()
    }
}
forms! { Plain, Plain::new();
    None; set |s, x| s.set_a(x); view |s| peek_lazy!(s, has_a, clear_a, set_a),
    Some(17); set |s, x| s.set_b(x); view |s| peek_lazy!(s, has_b, clear_b, set_b),
    None; set |s, x| s.set_c(x); view |s| { assert!(s.has_c() == s.c.is_some()); s.c },
    Some(18); set |s, x| s.set_d(x); view |s| s.d,
    Some(0); set |s, x| Some(s.set_e(x)); view |s| Some(s.e()),
    Some(5); set |s, x| Some(s.set_f(x)); view |s| Some(s.f()),
    None; set |s, x| s.set_g(x); view |s| s.g(),
    Some(19); set |s, x| s.set_h(x); view |s| s.h(),
}

/// `default` isn't there but is needed for `new`
#[fxstruct(sync)]
pub struct Synced {
    #[fieldx(lazy, predicate, clearer, set)]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, default(Self::MINE))]
    b: i32,
    #[fieldx(predicate, get(copy), set)]
    c: i32,
    #[fieldx(clearer, get(copy), set, default(Self::MINE))]
    d: i32,
    #[fieldx(lock, get(copy), set)]
    e: i32,
    #[fieldx(lock, get(copy), set, default(Self::MINE))]
    f: i32,
    #[fieldx(set)]
    g: i32,
    #[fieldx(set, default(Self::MINE))]
    h: i32,
}
impl Synced {
    const MINE: i32 = 23;
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        must_not_build()
    }
}
forms! { Synced, Synced::new();
    None; set |s, x| s.set_a(x); view |s| peek_lazy!(s, has_a, clear_a, set_a),
    Some(23); set |s, x| s.set_b(x); view |s| peek_lazy!(s, has_b, clear_b, set_b),
    None; set |s, x| s.set_c(x); view |s| { assert!(s.has_c() == s.c().is_some()); s.c() },
    Some(23); set |s, x| s.set_d(x); view |s| s.d(),
    Some(0); set |s, x| Some(s.set_e(x)); view |s| Some(s.e()),
    Some(23); set |s, x| Some(s.set_f(x)); view |s| Some(s.f()),
    Some(0); set |s, x| Some(s.set_g(x)); view |s| Some(s.g),
    Some(23); set |s, x| Some(s.set_h(x)); view |s| Some(s.h),
}

/// Same with a builder: the defaults are used by both
#[fxstruct(sync, builder)]
pub struct SyncedBuilt {
    #[fieldx(lazy, predicate, clearer, set, default(Self::MINE))]
    a: i32,
    #[fieldx(optional, get(copy), set, default(Self::mine()))]
    b: i32,
    #[fieldx(lock, get(copy), set, default(Self::mine()))]
    c: i32,
    #[fieldx(set, default(Self::MINE))]
    d: i32,
    #[fieldx(lock, get, default("seven77"))]
    e: String,
    #[fieldx(inner_mut(off), optional, lock(off), set, get(copy))]
    f: i32,
}
impl SyncedBuilt {
    const MINE: i32 = 24;
    fn mine() -> i32 {
        25
    }
    fn build_a(&self) -> i32 {
        must_not_build()
    }
}
forms! { SyncedBuilt, SyncedBuilt::new();
    Some(24); set |s, x| s.set_a(x); view |s| peek_lazy!(s, has_a, clear_a, set_a),
    Some(25); set |s, x| s.set_b(x); view |s| s.b(),
    Some(25); set |s, x| Some(s.set_c(x)); view |s| Some(s.c()),
    Some(24); set |s, x| Some(s.set_d(x)); view |s| Some(s.d),
    Some(7); set |s, x| Some(x); view |s| text(&s.e()),
    None; set |s, x| s.set_f(x); view |s| s.f(),
}
impl SyncedBuilt {
    fn by_builder() -> Self {
        let Ok(s) = Self::builder().build()
        else {
            panic!("nothing is required")
        };
        s
    }
}

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(lazy, predicate, clearer, set)]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, default(26))]
    b: i32,
    #[fieldx(optional, set)]
    c: i32,
    #[fieldx(optional, set, default(27))]
    d: i32,
    #[fieldx(lock, set)]
    e: i32,
    #[fieldx(lock, set, default(Self::mine()))]
    f: i32,
    #[fieldx(set, default(29))]
    g: i32,
}
impl Async {
    fn mine() -> i32 {
        28
    }
    async fn build_a(&self) -> i32 {
        must_not_build()
    }
    async fn build_b(&self) -> i32 {
        must_not_build()
    }
}
forms! { Async, Async::new();
    None; set |s, x| run_now(s.set_a(x)); view |s| peek_lazy_async!(s, has_a, clear_a, set_a),
    Some(26); set |s, x| run_now(s.set_b(x)); view |s| peek_lazy_async!(s, has_b, clear_b, set_b),
    None; set |s, x| run_now(s.set_c(x)); view |s| *run_now(s.c.read()),
    Some(27); set |s, x| run_now(s.set_d(x)); view |s| *run_now(s.d.read()),
    Some(0); set |s, x| Some(run_now(s.set_e(x))); view |s| Some(*run_now(s.e.read())),
    Some(28); set |s, x| Some(run_now(s.set_f(x))); view |s| Some(*run_now(s.f.read())),
    Some(29); set |s, x| Some(s.set_g(x)); view |s| Some(s.g),
}

/// No helpers, no constructor
#[fxstruct(no_new, default)]
pub struct NoNew {
    #[fieldx(default(31))]
    a: i32,
    b: i32,
    #[fieldx(optional)]
    c: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    d: i32,
}
impl NoNew {
    /// The name is available
    pub fn new() -> Self {
        Self { b: 32, ..Default::default() }
    }
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
forms! { NoNew, NoNew::default();
    Some(31); set |s, x| Some(x); view |s| Some(s.a),
    Some(0); set |s, x| Some(x); view |s| Some(s.b),
    None; set |s, x| Some(x); view |s| s.c,
    None; set |s, x| s.set_d(x); view |s| peek_lazy!(s, has_d, clear_d, set_d),
}
/// The user's own implementation of Default isn't in conflict with anything
#[fxstruct(no_new, default(off))]
pub struct OwnDefault {
    #[fieldx(get(copy))]
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
}
impl Default for OwnDefault {
    fn default() -> Self {
        Self { a: 33, b: None }
    }
}

/// Skipped fields know the default only
#[fxstruct(lazy, get, set, predicate, clearer)]
pub struct SkipLazy {
    a: i32,
    #[fieldx(skip)]
    b: i32,
    #[fieldx(skip, default(34))]
    c: i32,
    #[fieldx(default(35))]
    d: i32,
}
impl SkipLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
forms! { SkipLazy, SkipLazy::new();
    None; set |s, x| s.set_a(x); view |s| peek_lazy!(s, has_a, clear_a, set_a),
    Some(0); set |s, x| Some(x); view |s| { let r: &i32 = &s.b; Some(*r) },
    Some(34); set |s, x| Some(x); view |s| { let r: &i32 = &s.c; Some(*r) },
    Some(35); set |s, x| s.set_d(x); view |s| peek_lazy!(s, has_d, clear_d, set_d),
}
#[fxstruct(inner_mut, get(copy), set)]
pub struct SkipInner {
    a: i32,
    #[fieldx(skip)]
    b: i32,
    #[fieldx(skip, default(36))]
    c: i32,
    #[fieldx(default(Self::mine()))]
    d: i32,
}
impl SkipInner {
    fn mine() -> i32 {
        37
    }
}
forms! { SkipInner, SkipInner::new();
    Some(0); set |s, x| Some(s.set_a(x)); view |s| Some(s.a()),
    Some(0); set |s, x| Some(x); view |s| { let r: &i32 = &s.b; Some(*r) },
    Some(36); set |s, x| Some(x); view |s| { let r: &i32 = &s.c; Some(*r) },
    Some(37); set |s, x| Some(s.set_d(x)); view |s| Some(s.d()),
}
#[fxstruct(sync, lock, get(copy), set)]
pub struct SkipLock {
    a: i32,
    #[fieldx(skip)]
    b: i32,
    #[fieldx(skip, default(38))]
    c: i32,
    #[fieldx(default(39))]
    d: i32,
}
forms! { SkipLock, SkipLock::new();
    Some(0); set |s, x| Some(s.set_a(x)); view |s| Some(s.a()),
    Some(0); set |s, x| Some(x); view |s| { let r: &i32 = &s.b; Some(*r) },
    Some(38); set |s, x| Some(x); view |s| { let r: &i32 = &s.c; Some(*r) },
    Some(39); set |s, x| Some(s.set_d(x)); view |s| Some(s.d()),
}
#[fxstruct(optional, get(copy), set, builder)]
pub struct SkipOptional {
    a: i32,
    #[fieldx(skip)]
    b: i32,
    #[fieldx(skip, default(40))]
    c: i32,
    #[fieldx(default(41))]
    d: i32,
}
forms! { SkipOptional, SkipOptional::new();
    None; set |s, x| s.set_a(x); view |s| s.a(),
    Some(0); set |s, x| Some(x); view |s| { let r: &i32 = &s.b; Some(*r) },
    Some(40); set |s, x| Some(x); view |s| { let r: &i32 = &s.c; Some(*r) },
    Some(41); set |s, x| s.set_d(x); view |s| s.d(),
}
impl SkipOptional {
    fn by_builder() -> Self {
        let Ok(s) = Self::builder().build()
        else {
            panic!("nothing is required")
        };
        s
    }
}

/// Generic parameters with bounds, constants among them
pub trait Start {
    const START: i32;
    fn start() -> i32 {
        Self::START
    }
}
impl Start for Tok {
    const START: i32 = 43;
}
#[fxstruct(default)]
pub struct Generic<T: Default + Start, const N: usize = 3>
where
    T: PartialEq,
{
    #[fieldx(set)]
    a: T,
    #[fieldx(optional, set)]
    b: T,
    #[fieldx(default(Self::own()), set)]
    c: i32,
    #[fieldx(default(T::start()), set)]
    d: i32,
    #[fieldx(default(filled()))]
    e: [usize; N],
}
fn filled<const N: usize>() -> [usize; N] {
    [N; N]
}
impl<T: Default + Start, const N: usize> Generic<T, N>
where
    T: PartialEq,
{
    fn own() -> i32 {
        T::START + N as i32
    }
}
pub type GenericTok = Generic<Tok, 3>;
forms! { GenericTok, GenericTok::new();
    Some(0); set |s, x| Some(s.set_a(Tok(x)).0); view |s| Some(s.a.0),
    None; set |s, x| s.set_b(Tok(x)).map(|t| t.0); view |s| s.b.as_ref().map(|t| t.0),
    Some(46); set |s, x| Some(s.set_c(x)); view |s| Some(s.c),
    Some(43); set |s, x| Some(s.set_d(x)); view |s| Some(s.d),
    Some(3); set |s, x| Some(x); view |s| { assert!(s.e[1] == 3 && s.e[2] == 3); Some(s.e[0] as i32) },
}
#[fxstruct(sync, builder)]
pub struct GenericSync<T: Default + Start> {
    #[fieldx(lock, get(copy), set, default(Self::own()))]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, default(T::default()))]
    b: T,
    #[fieldx(lock)]
    c: T,
}
impl<T: Default + Start> GenericSync<T> {
    fn own() -> i32 {
        T::START
    }
    fn build_b(&self) -> T {
        must_not_build()
    }
}
pub type GenericSyncTok = GenericSync<Tok>;
forms! { GenericSyncTok, GenericSyncTok::new();
    Some(43); set |s, x| Some(s.set_a(x)); view |s| Some(s.a()),
    Some(0); set |s, x| s.set_b(Tok(x)).map(|t| t.0); view |s| peek_lazy!(s, has_b, clear_b, set_b),
    Some(0); set |s, x| Some(x); view |s| Some(s.c.read().0),
}

/// Reference counted
#[fxstruct(rc)]
pub struct Rced {
    #[fieldx(default(44))]
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(lazy, predicate)]
    c: i32,
    #[fieldx(inner_mut, set, get(copy), default(Self::mine()))]
    d: i32,
}
impl Rced {
    fn mine() -> i32 {
        45
    }
    fn build_c(&self) -> i32 {
        must_not_build()
    }
}
forms! { Rc<Rced>, Rced::new();
    Some(44); set |s, x| Some(x); view |s| Some(s.a),
    None; set |s, x| Some(x); view |s| s.b,
    None; set |s, x| Some(x); view |s| { let has = s.has_c(); if has { Some(*s.c()) } else { None } },
    Some(45); set |s, x| Some(s.set_d(x)); view |s| Some(s.d()),
}
#[fxstruct(rc, sync)]
pub struct RcedSync {
    #[fieldx(default(Self::MINE))]
    a: i32,
    #[fieldx(optional, get(copy), set)]
    b: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    c: i32,
    #[fieldx(lock, set, get(copy), default(Self::MINE))]
    d: i32,
}
impl RcedSync {
    const MINE: i32 = 46;
    fn build_c(&self) -> i32 {
        must_not_build()
    }
}
forms! { Arc<RcedSync>, RcedSync::new();
    Some(46); set |s, x| Some(x); view |s| Some(s.a),
    None; set |s, x| s.set_b(x); view |s| s.b(),
    None; set |s, x| s.set_c(x); view |s| peek_lazy!(s, has_c, clear_c, set_c),
    Some(46); set |s, x| Some(s.set_d(x)); view |s| Some(s.d()),
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::shapes;
    use std::mem::ManuallyDrop;

    fn check<T: Forms>(s: &mut T) {
        for i in 0..T::N {
            assert!(s.view(i) == T::initial(i), "a field of a fresh object has a wrong value");
        }
    }
    fn fresh<T: Forms>(s: T) {
        let mut s = ManuallyDrop::new(s);
        check(&mut *s);
        cover!(true, "reachable");
    }
    /// Whatever is done to an object, the ones made before and after that are fresh
    fn independent<T: Forms>() {
        let mut a = ManuallyDrop::new(T::make());
        let mut b = ManuallyDrop::new(T::make());
        for i in 0..T::N {
            a.set(i, any());
        }
        check(&mut *b);
        let mut c = ManuallyDrop::new(T::make());
        check(&mut *c);
        cover!(true, "reachable");
    }

    macro_rules! forms {
        ($( $op:ident: $( $t:ident )+ = |$s:ident| $e:expr; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(9)]
                        pub fn $t() {
                            type $s = super::$t;
                            $e
                        }
                    )+
                }
            )+
        };
    }
    forms! {
        new: Values Types Plain Synced SyncedBuilt Async SkipLazy SkipInner SkipLock SkipOptional GenericTok GenericSyncTok
            = |S| fresh(S::new());
        default: Values Types Plain Synced SyncedBuilt Async NoNew SkipLazy SkipInner SkipLock SkipOptional GenericTok GenericSyncTok
            = |S| fresh(<S as Default>::default());
        by_builder: SyncedBuilt SkipOptional
            = |S| fresh(S::by_builder());
        apart: Values Plain Synced SyncedBuilt Async SkipLazy SkipInner SkipLock SkipOptional GenericTok GenericSyncTok
            = |S| independent::<S>();
    }
    pub mod rc {
        use super::*;
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn new() {
            fresh::<Rc<Rced>>(Rced::new())
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn default() {
            fresh::<Rc<Rced>>(Rc::new(Rced::default()))
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn apart() {
            independent::<Rc<Rced>>()
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn sync_new() {
            fresh::<Arc<RcedSync>>(RcedSync::new())
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn sync_default() {
            fresh::<Arc<RcedSync>>(Arc::new(RcedSync::default()))
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn sync_apart() {
            independent::<Arc<RcedSync>>()
        }
    }
    pub mod own {
        use super::*;
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn new() {
            let s = ManuallyDrop::new(NoNew::new());
            assert!(s.a == 31 && s.b == 32 && s.c.is_none() && !s.has_d());
            cover!(true, "reachable");
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn default() {
            let s = ManuallyDrop::new(OwnDefault::default());
            assert!(s.a() == 33 && s.b() == None);
            cover!(true, "reachable");
        }
    }

    /// The structs of the builders' contracts
    fn built<T: Built>(s: T) {
        let mut s = ManuallyDrop::new(s);
        for i in 0..T::N {
            let expect = match T::absent(i) {
                Required => Some(0),
                Preset(x) => Some(x),
                Unset => None,
                Fixed(x) => x,
            };
            assert!(s.peek(i) == expect, "a field of a fresh object has a wrong value");
        }
        cover!(true, "reachable");
    }
    macro_rules! builts {
        ($( $t:ident )+) => {
            #[allow(non_snake_case)]
            pub mod shape_new {
                use super::*;
                $(
                    #[kani::proof]
                    #[kani::unwind(9)]
                    pub fn $t() {
                        built::<shapes::$t>(shapes::$t::new())
                    }
                )+
            }
            #[allow(non_snake_case)]
            pub mod shape_default {
                use super::*;
                $(
                    #[kani::proof]
                    #[kani::unwind(9)]
                    pub fn $t() {
                        built::<shapes::$t>(<shapes::$t as Default>::default())
                    }
                )+
            }
        };
    }
    builts! { Plain PlainDefaults PlainInto OptIn ByField OffByField Synced SyncDefaults Mixed Async AllLocked AllLazy AllOptional AllInner }
}
