//! Structs with builders
use crate::{built, built::*, common::*, peek_lazy, peek_lazy_async};
use fieldx::{error::FieldXError, fxstruct};
use std::{rc::Rc, sync::Arc};

// ---- Plain

#[fxstruct(builder)]
pub struct Plain {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    c: Tok,
    #[fieldx(optional)]
    d: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    e: i32,
}
impl Plain {
    fn build_e(&self) -> i32 {
        must_not_build()
    }
}
built! { Plain, PlainBuilder, FieldXError; new: Plain::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(s.b),
    "c", Required; give |b, x| b.c(Tok(x)); peek |s| Some(s.c.0),
    "d", Unset; give |b, x| b.d(x); peek |s| s.d,
    "e", Unset; give |b, x| b.e(x); peek |s| peek_lazy!(s, has_e, clear_e, set_e),
}

#[fxstruct(builder)]
pub struct PlainDefaults {
    #[fieldx(lazy, predicate, clearer, set, default(17))]
    a: i32,
    #[fieldx(optional, default(18))]
    b: i32,
    #[fieldx(inner_mut, default(19), get(copy))]
    c: i32,
    #[fieldx(inner_mut, optional, get(copy))]
    d: i32,
    #[fieldx(default(Self::initial_e()))]
    e: i32,
    #[fieldx(inner_mut, get(copy))]
    f: i32,
    #[fieldx(inner_mut, optional, get(copy), default(21))]
    g: i32,
}
impl PlainDefaults {
    fn initial_e() -> i32 {
        20
    }
    fn build_a(&self) -> i32 {
        must_not_build()
    }
}
built! { PlainDefaults, PlainDefaultsBuilder, FieldXError; new: PlainDefaults::builder(); build: |b| b.build();
    "a", Preset(17); give |b, x| b.a(x); peek |s| peek_lazy!(s, has_a, clear_a, set_a),
    "b", Preset(18); give |b, x| b.b(x); peek |s| s.b,
    "c", Preset(19); give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| s.d(),
    "e", Preset(20); give |b, x| b.e(x); peek |s| Some(s.e),
    "f", Required; give |b, x| b.f(x); peek |s| Some(s.f()),
    "g", Preset(21); give |b, x| b.g(x); peek |s| s.g(),
}

/// Conversions and names
#[fxstruct(builder("with_", into))]
pub struct PlainInto {
    a: Tok,
    #[fieldx(builder("put_b"))]
    b: Tok,
    #[fieldx(into(off))]
    c: Tok,
    #[fieldx(optional)]
    d: Tok,
    #[fieldx(lazy, predicate, clearer, set)]
    e: Tok,
    #[fieldx(rename("g"))]
    f: Tok,
}
impl PlainInto {
    fn build_e(&self) -> Tok {
        must_not_build()
    }
}
built! { PlainInto, PlainIntoBuilder, FieldXError; new: PlainInto::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.with_a(x); peek |s| Some(s.a.0),
    "b", Required; give |b, x| b.put_b(x); peek |s| Some(s.b.0),
    "c", Required; give |b, x| b.with_c(Tok(x)); peek |s| Some(s.c.0),
    "d", Unset; give |b, x| b.with_d(x); peek |s| s.d.as_ref().map(|t| t.0),
    "e", Unset; give |b, x| b.with_e(x); peek |s| peek_lazy!(s, has_e, clear_e, set_e),
    "f", Required; give |b, x| b.with_g(x); peek |s| Some(s.f.0),
}

/// Only some of the fields are for the builder
#[fxstruct(builder(opt_in))]
pub struct OptIn {
    #[fieldx(builder)]
    a: i32,
    b: i32,
    #[fieldx(default(17))]
    c: i32,
    #[fieldx(builder, default(18))]
    d: i32,
    #[fieldx(optional)]
    e: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    f: i32,
}
impl OptIn {
    fn build_f(&self) -> i32 {
        must_not_build()
    }
}
built! { OptIn, OptInBuilder, FieldXError; new: OptIn::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Fixed(Some(0)); peek |s| Some(s.b),
    "c", Fixed(Some(17)); peek |s| Some(s.c),
    "d", Preset(18); give |b, x| b.d(x); peek |s| Some(s.d),
    "e", Fixed(None); peek |s| s.e,
    "f", Fixed(None); peek |s| peek_lazy!(s, has_f, clear_f, set_f),
}

/// The builder is requested by a field, and is switched off by another one
#[fxstruct]
pub struct ByField {
    #[fieldx(builder(into))]
    a: Tok,
    b: i32,
    #[fieldx(builder("give_c"), lazy, predicate, clearer, set, default(17))]
    c: i32,
}
impl ByField {
    fn build_c(&self) -> i32 {
        must_not_build()
    }
}
built! { ByField, ByFieldBuilder, FieldXError; new: ByField::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a.0),
    "b", Fixed(Some(0)); peek |s| Some(s.b),
    "c", Preset(17); give |b, x| b.give_c(x); peek |s| peek_lazy!(s, has_c, clear_c, set_c),
}
#[fxstruct(builder)]
pub struct OffByField {
    a: i32,
    #[fieldx(builder(off))]
    b: i32,
    #[fieldx(builder(off), default(17))]
    c: i32,
    #[fieldx(builder(off), optional, default(18))]
    d: i32,
}
built! { OffByField, OffByFieldBuilder, FieldXError; new: OffByField::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Fixed(Some(0)); peek |s| Some(s.b),
    "c", Fixed(Some(17)); peek |s| Some(s.c),
    "d", Fixed(Some(18)); peek |s| s.d,
}

// ---- Sync

#[fxstruct(sync, builder)]
pub struct Synced {
    a: i32,
    #[fieldx(lock, get(copy))]
    b: i32,
    #[fieldx(lock, get(copy), default(17))]
    c: i32,
    #[fieldx(optional, get(copy))]
    d: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    e: i32,
    #[fieldx(default(18))]
    f: i32,
}
impl Synced {
    fn build_e(&self) -> i32 {
        must_not_build()
    }
}
built! { Synced, SyncedBuilder, FieldXError; new: Synced::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Required; give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Preset(17); give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| s.d(),
    "e", Unset; give |b, x| b.e(x); peek |s| peek_lazy!(s, has_e, clear_e, set_e),
    "f", Preset(18); give |b, x| b.f(x); peek |s| Some(s.f),
}

#[fxstruct(sync, builder(into))]
pub struct SyncDefaults {
    #[fieldx(lazy, predicate, clearer, set, default(17), builder(into(off)))]
    a: i32,
    #[fieldx(optional, default(18), get(copy))]
    b: i32,
    #[fieldx(optional, lock(off), get(copy))]
    c: i32,
    #[fieldx(optional, lock(off), get(copy), default(19))]
    d: i32,
    #[fieldx(lock, get(clone))]
    e: Tok,
}
impl SyncDefaults {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
}
built! { SyncDefaults, SyncDefaultsBuilder, FieldXError; new: SyncDefaults::builder(); build: |b| b.build();
    "a", Preset(17); give |b, x| b.a(x); peek |s| peek_lazy!(s, has_a, clear_a, set_a),
    "b", Preset(18); give |b, x| b.b(x); peek |s| s.b(),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c(),
    "d", Preset(19); give |b, x| b.d(x); peek |s| s.d(),
    "e", Required; give |b, x| b.e(x); peek |s| Some(s.e().0),
}

/// Modes mixed within a struct
#[fxstruct(builder)]
pub struct Mixed {
    #[fieldx(sync, lazy, predicate, clearer, set)]
    a: i32,
    #[fieldx(sync, lock, get(copy))]
    b: i32,
    #[fieldx(r#async, lock)]
    c: i32,
    #[fieldx(inner_mut, get(copy))]
    d: i32,
    #[fieldx(sync, optional, get(copy), default(17))]
    e: i32,
    f: i32,
}
impl Mixed {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
}
built! { Mixed, MixedBuilder, FieldXError; new: Mixed::builder(); build: |b| b.build();
    "a", Unset; give |b, x| b.a(x); peek |s| peek_lazy!(s, has_a, clear_a, set_a),
    "b", Required; give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Required; give |b, x| b.c(x); peek |s| Some(*run_now(s.c.read())),
    "d", Required; give |b, x| b.d(x); peek |s| Some(s.d()),
    "e", Preset(17); give |b, x| b.e(x); peek |s| s.e(),
    "f", Required; give |b, x| b.f(x); peek |s| Some(s.f),
}

// ---- Async

#[fxstruct(r#async, builder)]
pub struct Async {
    #[fieldx(lazy, predicate, clearer, set)]
    a: i32,
    #[fieldx(lock, default(17))]
    b: i32,
    #[fieldx(optional)]
    c: i32,
    d: i32,
    #[fieldx(lazy, predicate, clearer, set, default(18))]
    e: i32,
    #[fieldx(optional, default(19))]
    f: i32,
}
impl Async {
    async fn build_a(&self) -> i32 {
        must_not_build()
    }
    async fn build_e(&self) -> i32 {
        must_not_build()
    }
}
built! { Async, AsyncBuilder, FieldXError; new: Async::builder(); build: |b| b.build();
    "a", Unset; give |b, x| b.a(x); peek |s| peek_lazy_async!(s, has_a, clear_a, set_a),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(*run_now(s.b.read())),
    "c", Unset; give |b, x| b.c(x); peek |s| *run_now(s.c.read()),
    "d", Required; give |b, x| b.d(x); peek |s| Some(s.d),
    "e", Preset(18); give |b, x| b.e(x); peek |s| peek_lazy_async!(s, has_e, clear_e, set_e),
    "f", Preset(19); give |b, x| b.f(x); peek |s| *run_now(s.f.read()),
}

// ---- Struct level kinds

#[fxstruct(sync, lock, get(copy), builder)]
pub struct AllLocked {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    #[fieldx(lock(off))]
    c: i32,
    #[fieldx(lazy, lock(off), predicate, clearer, set)]
    d: i32,
}
impl AllLocked {
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
built! { AllLocked, AllLockedBuilder, FieldXError; new: AllLocked::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a()),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Required; give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| peek_lazy!(s, has_d, clear_d, set_d),
}

#[fxstruct(sync, lazy, builder, predicate, clearer, set, fallible(off, error(MyErr)))]
pub struct AllLazy {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    #[fieldx(lazy(off), predicate(off), clearer(off), set(off), get(copy))]
    c: i32,
    #[fieldx(fallible)]
    d: i32,
}
impl AllLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        must_not_build()
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        must_not_build()
    }
}
built! { AllLazy, AllLazyBuilder, FieldXError; new: AllLazy::builder(); build: |b| b.build();
    "a", Unset; give |b, x| b.a(x); peek |s| peek_lazy!(s, has_a, clear_a, set_a),
    "b", Preset(17); give |b, x| b.b(x); peek |s| peek_lazy!(s, has_b, clear_b, set_b),
    "c", Required; give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| peek_lazy!(s, has_d, clear_d, set_d),
}

#[fxstruct(optional, get(copy), builder)]
pub struct AllOptional {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    #[fieldx(optional(off))]
    c: i32,
    #[fieldx(inner_mut)]
    d: i32,
}
built! { AllOptional, AllOptionalBuilder, FieldXError; new: AllOptional::builder(); build: |b| b.build();
    "a", Unset; give |b, x| b.a(x); peek |s| s.a(),
    "b", Preset(17); give |b, x| b.b(x); peek |s| s.b(),
    "c", Required; give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| s.d(),
}

#[fxstruct(inner_mut, get(copy), builder)]
pub struct AllInner {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    #[fieldx(inner_mut(off))]
    c: i32,
    #[fieldx(optional)]
    d: i32,
}
built! { AllInner, AllInnerBuilder, FieldXError; new: AllInner::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a()),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Required; give |b, x| b.c(x); peek |s| Some(s.c()),
    "d", Unset; give |b, x| b.d(x); peek |s| s.d(),
}

// ---- Reference counted

#[fxstruct(rc, builder)]
pub struct Rced {
    a: i32,
    #[fieldx(default(17))]
    b: i32,
    #[fieldx(optional)]
    c: i32,
    #[fieldx(lazy, predicate)]
    d: i32,
}
impl Rced {
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
built! { Rc<Rced>, RcedBuilder, FieldXError; new: Rced::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(s.b),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c,
    "d", Unset; give |b, x| b.d(x); peek |s| { let has = s.has_d(); if has { Some(*s.d()) } else { None } },
}

#[fxstruct(rc, sync, builder)]
pub struct RcedSync {
    a: i32,
    #[fieldx(lock, get(copy), default(17))]
    b: i32,
    #[fieldx(optional, get(copy))]
    c: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    d: i32,
}
impl RcedSync {
    fn build_d(&self) -> i32 {
        must_not_build()
    }
}
built! { Arc<RcedSync>, RcedSyncBuilder, FieldXError; new: RcedSync::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Preset(17); give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c(),
    "d", Unset; give |b, x| b.d(x); peek |s| peek_lazy!(s, has_d, clear_d, set_d),
}

// ---- Generic

#[fxstruct(builder)]
pub struct Generic<T: Default, U>
where
    U: Clone,
{
    a: T,
    #[fieldx(optional)]
    b: U,
    #[fieldx(builder(into), get)]
    c: Vec<U>,
    d: i32,
}
pub type GenericTok = Generic<Tok, i32>;
built! { GenericTok, GenericBuilder<Tok, i32>, FieldXError; new: GenericTok::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(Tok(x)); peek |s| Some(s.a.0),
    "b", Unset; give |b, x| b.b(x); peek |s| s.b,
    "c", Required; give |b, x| b.c([x]); peek |s| s.c.first().copied(),
    "d", Required; give |b, x| b.d(x); peek |s| Some(s.d),
}
