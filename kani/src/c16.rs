//! Serialization and deserialization.
//!
//! A struct is serialized as a record of named values and deserialized from one (`mini_serde`), whichever the format is.
use crate::{common::*, mini_serde::*, peek_lazy, peek_lazy_async};
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};

/// What is the field in the output
#[derive(Clone, Copy, PartialEq)]
pub enum Out {
    /// It's not there
    Hidden,
    /// Its value, or null if it is unset
    Value,
    /// Its value, or what the lazy builder makes
    Lazy(i32),
}
/// What becomes of the field when it's deserialized
#[derive(Clone, Copy, PartialEq)]
pub enum In {
    /// Isn't to be read, always has this value
    Fixed(Option<i32>),
    /// Must be there
    Required,
    /// Must be there or it takes the default; can't be null
    Filled(i32),
    /// Is unset if null or missing
    Maybe,
    /// Is unset if null, takes the default if missing
    MaybeDefault(i32),
}
pub use In::*;
pub use Out::*;

pub trait Shape: Sized + Serialize + for<'a> Deserialize<'a> {
    const N: usize;
    fn make(v: &[Option<i32>; 4]) -> Self;
    fn peek(&mut self, i: usize) -> Option<i32>;
    fn name(i: usize) -> &'static str;
    /// It can be without a value
    fn nullable(i: usize) -> bool;
    fn out(i: usize) -> Out;
    fn inp(i: usize) -> In;
}

macro_rules! shape {
    ($t:ty; make |$v:ident| $make:expr; $( $name:literal, $nullable:expr, $out:expr, $inp:expr, |$p:ident| $peek:expr );+) => {
        impl Shape for $t {
            const N: usize = 0 $( + { let _ = $name; 1 } )+;
            fn make($v: &[Option<i32>; 4]) -> Self {
                $make
            }
            fn peek(&mut self, i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        let $p = self;
                        return $peek;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn name(i: usize) -> &'static str { [$( $name ),+][i] }
            fn nullable(i: usize) -> bool { [$( $nullable ),+][i] }
            fn out(i: usize) -> Out { [$( $out ),+][i] }
            fn inp(i: usize) -> In { [$( $inp ),+][i] }
        }
    };
}

/// Makes the field's state be `v`
macro_rules! put {
    ($s:ident, $set:ident, $clear:ident, $v:expr) => {
        match $v {
            Some(x) => { $s.$set(x); }
            None => { $s.$clear(); }
        }
    };
}
macro_rules! aput {
    ($s:ident, $set:ident, $clear:ident, $v:expr) => {
        match $v {
            Some(x) => { run_now($s.$set(x)); }
            None => { run_now($s.$clear()); }
        }
    };
}

// ---- Kinds of fields

#[fxstruct(serde, get)]
#[derive(Clone)]
pub struct Plain {
    #[fieldx(set)]
    a: i32,
    #[fieldx(optional, set, clearer)]
    b: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    c: i32,
    #[fieldx(inner_mut, get(copy), set)]
    d: i32,
}
impl Plain {
    fn build_c(&self) -> i32 {
        assert!(self.d() == self.a, "the builder sees another object");
        res()
    }
}
shape! { Plain; make |v| {
        let mut s = Plain::new();
        s.set_a(v[0].unwrap());
        put!(s, set_b, clear_b, v[1]);
        put!(s, set_c, clear_c, v[2]);
        // So that `build_c` can see whose fields it is given.
        s.set_d(if v[2].is_some() { v[3].unwrap() } else { v[0].unwrap() });
        s
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", true, Value, Maybe, |s| s.b;
    "c", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_c, clear_c, set_c);
    "d", false, Value, Required, |s| Some(s.d())
}

#[fxstruct(serde("PlainRecord"), builder, default(off))]
#[derive(Clone)]
pub struct PlainBuilt {
    a: i32,
    #[fieldx(optional, inner_mut, get(copy))]
    b: i32,
    #[fieldx(lazy, set, clearer, predicate, fallible(error(MyErr)))]
    c: i32,
}
impl PlainBuilt {
    fn build_c(&self) -> Result<i32, MyErr> {
        Ok(res())
    }
}
shape! { PlainBuilt; make |v| {
        let mut b = PlainBuilt::builder().a(v[0].unwrap());
        if let Some(x) = v[1] {
            b = b.b(x);
        }
        if let Some(x) = v[2] {
            b = b.c(x);
        }
        b.build().unwrap()
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", true, Value, Maybe, |s| s.b();
    "c", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_c, clear_c, set_c)
}

#[fxstruct(sync, serde)]
#[derive(Clone)]
pub struct Sync {
    #[fieldx(set, get)]
    a: i32,
    #[fieldx(optional, set, clearer, get(copy))]
    b: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    c: i32,
    #[fieldx(lock, get(copy), set)]
    d: i32,
}
impl Sync {
    fn build_c(&self) -> i32 {
        assert!(self.d() == self.a, "the builder sees another object");
        res()
    }
}
shape! { Sync; make |v| {
        let mut s = Sync::new();
        s.set_a(v[0].unwrap());
        put!(s, set_b, clear_b, v[1]);
        put!(s, set_c, clear_c, v[2]);
        s.set_d(if v[2].is_some() { v[3].unwrap() } else { v[0].unwrap() });
        s
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", true, Value, Maybe, |s| s.b();
    "c", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_c, clear_c, set_c);
    "d", false, Value, Required, |s| Some(s.d())
}

#[fxstruct(sync, serde)]
#[derive(Clone)]
pub struct SyncMixed {
    #[fieldx(lock, optional, set, clearer, get(copy))]
    a: i32,
    #[fieldx(inner_mut, set, get(copy))]
    b: i32,
    #[fieldx(lazy, set, clearer, predicate, fallible(error(MyErr)))]
    c: i32,
    #[fieldx(mode(plain), lazy, set, clearer, predicate)]
    d: i32,
}
impl SyncMixed {
    fn build_c(&self) -> Result<i32, MyErr> {
        Ok(res())
    }
    fn build_d(&self) -> i32 {
        res() ^ 1
    }
}
shape! { SyncMixed; make |v| {
        let mut s = SyncMixed::new();
        put!(s, set_a, clear_a, v[0]);
        s.set_b(v[1].unwrap());
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", true, Value, Maybe, |s| s.a();
    "b", false, Value, Required, |s| Some(s.b());
    "c", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_c, clear_c, set_c);
    "d", true, Lazy(res() ^ 1), Maybe, |s| peek_lazy!(s, has_d, clear_d, set_d)
}

#[fxstruct(r#async, serde)]
#[derive(Clone)]
pub struct Async {
    #[fieldx(set, get)]
    a: i32,
    #[fieldx(optional, set, clearer, get(copy))]
    b: i32,
    #[fieldx(lock, get(copy), set)]
    c: i32,
}
shape! { Async; make |v| {
        let mut s = Async::new();
        s.set_a(v[0].unwrap());
        aput!(s, set_b, clear_b, v[1]);
        run_now(s.set_c(v[2].unwrap()));
        s
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", true, Value, Maybe, |s| run_now(s.b());
    "c", false, Value, Required, |s| Some(run_now(s.c()))
}

// ---- Directions

#[fxstruct(serde, default)]
#[derive(Clone)]
pub struct PlainWays {
    #[fieldx(serde(off), default(3), set)]
    a: i32,
    #[fieldx(serde(serialize(off)), set)]
    b: i32,
    #[fieldx(serde(deserialize(off)), default(4), set)]
    c: i32,
    #[fieldx(serde(off), lazy, set, clearer, predicate)]
    d: i32,
}
impl PlainWays {
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
shape! { PlainWays; make |v| {
        let mut s = PlainWays::new();
        s.set_a(v[0].unwrap());
        s.set_b(v[1].unwrap());
        s.set_c(v[2].unwrap());
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Hidden, Fixed(Some(3)), |s| Some(s.a);
    "b", false, Hidden, Required, |s| Some(s.b);
    "c", false, Value, Fixed(Some(4)), |s| Some(s.c);
    "d", true, Hidden, Fixed(None), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

#[fxstruct(serde, default)]
#[derive(Clone)]
pub struct PlainLazyWays {
    #[fieldx(lazy, set, clearer, predicate, serde(serialize(off)))]
    a: i32,
    #[fieldx(lazy, set, clearer, predicate, serde(deserialize(off)))]
    b: i32,
    #[fieldx(optional, set, clearer, serde(serialize(off)))]
    c: i32,
    #[fieldx(optional, set, clearer, serde(deserialize(off)), default(5))]
    d: i32,
}
impl PlainLazyWays {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        res()
    }
}
shape! { PlainLazyWays; make |v| {
        let mut s = PlainLazyWays::new();
        put!(s, set_a, clear_a, v[0]);
        put!(s, set_b, clear_b, v[1]);
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", true, Hidden, Maybe, |s| peek_lazy!(s, has_a, clear_a, set_a);
    "b", true, Lazy(res()), Fixed(None), |s| peek_lazy!(s, has_b, clear_b, set_b);
    "c", true, Hidden, Maybe, |s| s.c;
    "d", true, Value, Fixed(Some(5)), |s| s.d
}

#[fxstruct(sync, serde, default)]
#[derive(Clone)]
pub struct SyncWays {
    #[fieldx(serde(off), lock, default(3), set, get(copy))]
    a: i32,
    #[fieldx(serde(serialize(off)), lazy, set, clearer, predicate)]
    b: i32,
    #[fieldx(serde(deserialize(off)), optional, default(4), set, clearer, get(copy))]
    c: i32,
    #[fieldx(serde(deserialize(off)), lazy, set, clearer, predicate)]
    d: i32,
}
impl SyncWays {
    fn build_b(&self) -> i32 {
        must_not_build()
    }
    fn build_d(&self) -> i32 {
        res()
    }
}
shape! { SyncWays; make |v| {
        let mut s = SyncWays::new();
        s.set_a(v[0].unwrap());
        put!(s, set_b, clear_b, v[1]);
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Hidden, Fixed(Some(3)), |s| Some(s.a());
    "b", true, Hidden, Maybe, |s| peek_lazy!(s, has_b, clear_b, set_b);
    "c", true, Value, Fixed(Some(4)), |s| s.c();
    "d", true, Lazy(res()), Fixed(None), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

// ---- Names and defaults

/// The key may be neither the name of the field nor that of the methods
#[fxstruct(serde)]
#[derive(Clone)]
pub struct Names {
    #[fieldx(rename("x"), set, get)]
    a: i32,
    #[fieldx(serde("y"), set)]
    b: i32,
    #[fieldx(rename("t"), serde("z"), set, get)]
    c: i32,
    #[fieldx(serde, set)]
    r#type: i32,
}
shape! { Names; make |v| {
        let mut s = Names::new();
        s.set_x(v[0].unwrap());
        s.set_b(v[1].unwrap());
        s.set_t(v[2].unwrap());
        s.set_type(v[3].unwrap());
        s
    };
    "x", false, Value, Required, |s| Some(s.a);
    "y", false, Value, Required, |s| Some(s.b);
    "z", false, Value, Required, |s| Some(s.c);
    "type", false, Value, Required, |s| Some(s.r#type)
}

fn nine() -> i32 {
    9
}
fn just_eleven() -> Option<i32> {
    Some(11)
}
#[fxstruct(serde, default)]
#[derive(Clone)]
pub struct FieldDefaults {
    #[fieldx(set, serde(default(7)), default(1))]
    a: i32,
    #[fieldx(set, serde(default("nine")), default(2))]
    b: i32,
    #[fieldx(optional, set, clearer, serde(default("just_eleven")), default(3))]
    c: i32,
    #[fieldx(lazy, set, clearer, predicate, serde(default(13)), default(4))]
    d: i32,
}
impl FieldDefaults {
    fn build_d(&self) -> i32 {
        res()
    }
}
shape! { FieldDefaults; make |v| {
        let mut s = FieldDefaults::new();
        s.set_a(v[0].unwrap());
        s.set_b(v[1].unwrap());
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Value, Filled(7), |s| Some(s.a);
    "b", false, Value, Filled(9), |s| Some(s.b);
    "c", true, Value, MaybeDefault(11), |s| s.c;
    "d", true, Lazy(res()), MaybeDefault(13), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

/// Defaults of fields aren't those of serde unless it's asked to use them
#[fxstruct(sync, serde, default)]
#[derive(Clone)]
pub struct OwnDefaults {
    #[fieldx(set, default(1))]
    a: i32,
    #[fieldx(set, get(copy), lock, serde(default), default(2))]
    b: i32,
    #[fieldx(optional, set, clearer, get(copy), default(3))]
    c: i32,
    #[fieldx(lazy, set, clearer, predicate, serde(default(13)), default(4))]
    d: i32,
}
impl OwnDefaults {
    fn build_d(&self) -> i32 {
        res()
    }
}
shape! { OwnDefaults; make |v| {
        let mut s = OwnDefaults::new();
        s.set_a(v[0].unwrap());
        s.set_b(v[1].unwrap());
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", false, Value, Filled(0), |s| Some(s.b());
    "c", true, Value, Maybe, |s| s.c();
    "d", true, Lazy(res()), MaybeDefault(13), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

/// Here it is
#[fxstruct(serde(default))]
#[derive(Clone)]
pub struct StructDefault {
    #[fieldx(set, default(1))]
    a: i32,
    #[fieldx(set, serde(default(7)), default(2))]
    b: i32,
    #[fieldx(optional, set, clearer, default(3))]
    c: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    d: i32,
}
impl StructDefault {
    fn build_d(&self) -> i32 {
        res()
    }
}
shape! { StructDefault; make |v| {
        let mut s = StructDefault::new();
        s.set_a(v[0].unwrap());
        s.set_b(v[1].unwrap());
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Value, Filled(1), |s| Some(s.a);
    "b", false, Value, Filled(7), |s| Some(s.b);
    "c", true, Value, MaybeDefault(3), |s| s.c;
    "d", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_d, clear_d, set_d)
}

/// Unless there is a default, a lazy field is unset
#[fxstruct(serde(default), default)]
#[derive(Clone)]
pub struct LazyDefault {
    #[fieldx(lazy, set, clearer, predicate, default(2))]
    a: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    b: i32,
    #[fieldx(inner_mut, get(copy), set, default(4))]
    c: i32,
    #[fieldx(lazy, set, clearer, predicate, serde(default(13)), default(3))]
    d: i32,
}
impl LazyDefault {
    fn build_a(&self) -> i32 {
        res()
    }
    fn build_b(&self) -> i32 {
        res()
    }
    fn build_d(&self) -> i32 {
        res()
    }
}
shape! { LazyDefault; make |v| {
        let mut s = LazyDefault::new();
        put!(s, set_a, clear_a, v[0]);
        put!(s, set_b, clear_b, v[1]);
        s.set_c(v[2].unwrap());
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", true, Lazy(res()), MaybeDefault(2), |s| peek_lazy!(s, has_a, clear_a, set_a);
    "b", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_b, clear_b, set_b);
    "c", false, Value, Filled(4), |s| Some(s.c());
    "d", true, Lazy(res()), MaybeDefault(13), |s| peek_lazy!(s, has_d, clear_d, set_d)
}
#[fxstruct(sync, serde(default), default)]
#[derive(Clone)]
pub struct SyncLazyDefault {
    #[fieldx(lazy, set, clearer, predicate, default(2))]
    a: i32,
    #[fieldx(lock, optional, get(copy), set, clearer, default(3))]
    b: i32,
    #[fieldx(lock, get(copy), set, default(4))]
    c: i32,
    #[fieldx(lazy, fallible(error(MyErr)), set, clearer, predicate, default(5))]
    d: i32,
}
impl SyncLazyDefault {
    fn build_a(&self) -> i32 {
        res()
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        Ok(res())
    }
}
shape! { SyncLazyDefault; make |v| {
        let mut s = SyncLazyDefault::new();
        put!(s, set_a, clear_a, v[0]);
        put!(s, set_b, clear_b, v[1]);
        s.set_c(v[2].unwrap());
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", true, Lazy(res()), MaybeDefault(2), |s| peek_lazy!(s, has_a, clear_a, set_a);
    "b", true, Value, MaybeDefault(3), |s| s.b();
    "c", false, Value, Filled(4), |s| Some(s.c());
    "d", true, Lazy(res()), MaybeDefault(5), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

#[fxstruct(sync, serde("Given", default(Self::given())))]
#[derive(Clone)]
pub struct StructFn {
    #[fieldx(set, default(1))]
    a: i32,
    #[fieldx(set, lock, get(copy))]
    b: i32,
    #[fieldx(optional, set, clearer, get(copy), default(3))]
    c: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    d: i32,
}
impl StructFn {
    fn build_d(&self) -> i32 {
        res()
    }
    fn given() -> Given {
        Given { a: 21, b: 22, c: Some(23), d: Some(24) }
    }
}
shape! { StructFn; make |v| {
        let mut s = StructFn::new();
        s.set_a(v[0].unwrap());
        s.set_b(v[1].unwrap());
        put!(s, set_c, clear_c, v[2]);
        put!(s, set_d, clear_d, v[3]);
        s
    };
    "a", false, Value, Filled(21), |s| Some(s.a);
    "b", false, Value, Filled(22), |s| Some(s.b());
    "c", true, Value, MaybeDefault(23), |s| s.c();
    "d", true, Lazy(res()), MaybeDefault(24), |s| peek_lazy!(s, has_d, clear_d, set_d)
}

/// The default is another object of the type
#[fxstruct(serde(default("Self::given")), builder)]
#[derive(Clone)]
pub struct StructObject {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    #[fieldx(inner_mut, get(copy))]
    c: i32,
}
impl StructObject {
    fn given() -> Self {
        Self::builder().a(31).b(32).c(33).build().unwrap()
    }
}
shape! { StructObject; make |v| {
        let mut b = StructObject::builder().a(v[0].unwrap()).c(v[2].unwrap());
        if let Some(x) = v[1] {
            b = b.b(x);
        }
        b.build().unwrap()
    };
    "a", false, Value, Filled(31), |s| Some(s.a);
    "b", true, Value, MaybeDefault(32), |s| s.b;
    "c", false, Value, Filled(33), |s| Some(s.c())
}

// ---- Generics

#[fxstruct(sync, serde)]
#[derive(Clone)]
pub struct Gen<T: Clone + std::default::Default>
where
    T: From<i32>,
{
    #[fieldx(set, get)]
    a: T,
    #[fieldx(optional, set, clearer, get(clone))]
    b: T,
    #[fieldx(lazy, set, clearer, predicate)]
    c: T,
}
impl<T: Clone + std::default::Default + From<i32>> Gen<T> {
    fn build_c(&self) -> T {
        res().into()
    }
}
pub type GenInt = Gen<i32>;
shape! { GenInt; make |v| {
        let mut s = GenInt::new();
        s.set_a(v[0].unwrap());
        put!(s, set_b, clear_b, v[1]);
        put!(s, set_c, clear_c, v[2]);
        s
    };
    "a", false, Value, Required, |s| Some(s.a);
    "b", true, Value, Maybe, |s| s.b();
    "c", true, Lazy(res()), Maybe, |s| peek_lazy!(s, has_c, clear_c, set_c)
}

// ---- One way only

#[fxstruct(serde(deserialize(off)))]
#[derive(Clone)]
pub struct WriteOnly {
    #[fieldx(set)]
    a: i32,
    #[fieldx(optional, set)]
    b: i32,
}
#[fxstruct(sync, serde(serialize(off)))]
#[derive(Clone)]
pub struct ReadOnly {
    a: i32,
    #[fieldx(optional, get(copy))]
    b: i32,
    #[fieldx(lazy, set, clearer, predicate)]
    c: i32,
}
impl ReadOnly {
    fn build_c(&self) -> i32 {
        must_not_build()
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    fn state<T: Shape>() -> [Option<i32>; 4] {
        let mut v = [None; 4];
        for i in 0..T::N {
            v[i] = if T::nullable(i) { any() } else { Some(any()) };
        }
        v
    }
    /// What `make` has really made of it
    fn object<T: Shape>() -> (ManuallyDrop<T>, [Option<i32>; 4]) {
        let mut v = state::<T>();
        let mut s = ManuallyDrop::new(T::make(&v));
        for i in 0..T::N {
            v[i] = s.peek(i);
        }
        (s, v)
    }
    fn same(a: &str, b: &str) -> bool {
        crate::built::same_str(a, b)
    }

    /// The output: all the fields to be serialized, under their names, with their values; the object isn't changed
    fn out<T: Shape>() {
        track(false);
        set_res(any());
        let (mut s, v) = object::<T>();
        let r = ser(&*s).unwrap();
        let mut n = 0;
        for i in 0..T::N {
            let val = match T::out(i) {
                Hidden => continue,
                Value => v[i],
                Lazy(x) => Some(v[i].unwrap_or(x)),
            };
            assert!(n < r.len, "a field isn't serialized");
            assert!(same(r.names[n], T::name(i)), "wrong name of a serialized field");
            assert!(r.vals[n] == val.map_or(Val::Null, Val::Int), "wrong value of a serialized field");
            n += 1;
        }
        assert!(n == r.len, "more fields than declared are serialized");
        for i in 0..T::N {
            assert!(s.peek(i) == v[i], "serialization changed the object");
        }
        cover!(true, "reachable");
    }

    /// The input: for each field missing, null, or an arbitrary value
    fn inp<T: Shape>() {
        track(false);
        set_res(any());
        let mut input = [None; 4];
        let mut expected = [None; 4];
        let mut fails = false;
        let mut n = 0;
        for i in 0..T::N {
            let what = T::inp(i);
            if let Fixed(v) = what {
                expected[i] = v;
                continue;
            }
            let x: i32 = any();
            let sort: u8 = any();
            let (val, exp) = match sort {
                0 => (
                    None,
                    match what {
                        Required => Err(()),
                        Filled(d) | MaybeDefault(d) => Ok(Some(d)),
                        _ => Ok(None),
                    },
                ),
                1 => (Some(Val::Null), if T::nullable(i) { Ok(None) } else { Err(()) }),
                _ => (Some(Val::Int(x)), Ok(Some(x))),
            };
            input[n] = val;
            n += 1;
            match exp {
                Ok(v) => expected[i] = v,
                Err(()) => fails = true,
            }
        }
        match de::<T>(input) {
            Ok(s) => {
                let mut s = ManuallyDrop::new(s);
                assert!(!fails, "deserialized without a required value");
                for i in 0..T::N {
                    assert!(s.peek(i) == expected[i], "a deserialized field has a wrong value");
                }
                cover!(true, "reachable");
            }
            Err(_) => assert!(fails, "can't deserialize"),
        }
        // The names of what it has been given
        let mut n = 0;
        for i in 0..T::N {
            if !matches!(T::inp(i), Fixed(_)) {
                assert!(n < unsafe { EXPECTS.len() } && same(unsafe { EXPECTS[n] }, T::name(i)), "wrong name of a deserialized field");
                n += 1;
            }
        }
        assert!(n == unsafe { EXPECTS.len() }, "more fields than declared are deserialized");
    }

    /// There and back
    fn both<T: Shape>() {
        track(false);
        set_res(any());
        let (s, v) = object::<T>();
        let r = ser(&*s).unwrap();
        let mut input = [None; 4];
        let mut expected = [None; 4];
        let (mut m, mut n) = (0, 0);
        for i in 0..T::N {
            let val = match T::out(i) {
                Hidden => None,
                Value => v[i],
                Lazy(x) => Some(v[i].unwrap_or(x)),
            };
            let here = T::out(i) != Hidden;
            if let Fixed(d) = T::inp(i) {
                expected[i] = d;
            }
            else {
                if here {
                    input[n] = Some(r.vals[m]);
                    expected[i] = val;
                }
                else {
                    // Must be given, isn't in the output.
                    let x = any();
                    input[n] = Some(Val::Int(x));
                    expected[i] = Some(x);
                }
                n += 1;
            }
            if here {
                m += 1;
            }
        }
        let mut t = ManuallyDrop::new(de::<T>(input).unwrap());
        for i in 0..T::N {
            assert!(t.peek(i) == expected[i], "serialized and deserialized object isn't the same");
        }
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $op:ident: $( $t:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(6)]
                        pub fn $t() {
                            super::$op::<super::super::$t>()
                        }
                    )+
                }
            )+
        };
    }
    contracts! {
        out: Plain PlainBuilt Sync SyncMixed Async PlainWays PlainLazyWays SyncWays Names FieldDefaults OwnDefaults StructDefault LazyDefault SyncLazyDefault StructFn StructObject GenInt;
        inp: Plain PlainBuilt Sync SyncMixed Async PlainWays PlainLazyWays SyncWays Names FieldDefaults OwnDefaults StructDefault LazyDefault SyncLazyDefault StructFn StructObject GenInt;
        both: Plain PlainBuilt Sync SyncMixed Async PlainWays PlainLazyWays SyncWays Names GenInt;
    }

    #[kani::proof]
    #[kani::unwind(6)]
    pub fn write_only() {
        let mut s = ManuallyDrop::new(WriteOnly::new());
        let (x, y) = (any(), any());
        s.set_a(x);
        let some: bool = any();
        if some {
            s.set_b(y);
        }
        let r = ser(&*s).unwrap();
        assert!(r.len == 2 && same(r.names[0], "a") && same(r.names[1], "b"));
        assert!(r.vals[0] == Val::Int(x));
        assert!(r.vals[1] == if some { Val::Int(y) } else { Val::Null });
        cover!(some, "reachable");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    pub fn read_only() {
        let x: i32 = any();
        let (y, z): (Option<i32>, Option<i32>) = (any(), any());
        let mut s = ManuallyDrop::new(de::<ReadOnly>([Some(Val::Int(x)), y.map(Val::Int), z.map(Val::Int), None]).unwrap());
        assert!(s.a == x);
        assert!(s.b() == y);
        assert!(peek_lazy!(s, has_c, clear_c, set_c) == z);
        cover!(y.is_some() && z.is_none(), "reachable");
    }
}
