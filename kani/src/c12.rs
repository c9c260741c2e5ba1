//! Struct builders: required values.
use crate::{built, built::*, common::*, peek_lazy, peek_lazy_async, shapes::*};
use fieldx::{error::FieldXError, fxstruct};
use std::{rc::Rc, sync::Arc};

#[fxstruct(builder)]
pub struct RequiredPlain {
    #[fieldx(optional, builder(required))]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, builder(required))]
    b: i32,
    #[fieldx(optional)]
    c: i32,
    #[fieldx(inner_mut, optional, get(copy), builder(required))]
    d: i32,
    #[fieldx(builder("put_e", required))]
    e: Tok,
}
impl RequiredPlain {
    fn build_b(&self) -> i32 {
        must_not_build()
    }
}
built! { RequiredPlain, RequiredPlainBuilder, FieldXError; new: RequiredPlain::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| s.a,
    "b", Required; give |b, x| b.b(x); peek |s| peek_lazy!(s, has_b, clear_b, set_b),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c,
    "d", Required; give |b, x| b.d(x); peek |s| s.d(),
    "e", Required; give |b, x| b.put_e(Tok(x)); peek |s| Some(s.e.0),
}

#[fxstruct(sync, builder)]
pub struct RequiredSync {
    #[fieldx(optional, get(copy), builder(required))]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set, builder(required))]
    b: i32,
    #[fieldx(optional, get(copy))]
    c: i32,
    #[fieldx(optional, lock(off), get(copy), builder(required))]
    d: i32,
    #[fieldx(lock, get(copy), builder(required))]
    e: i32,
}
impl RequiredSync {
    fn build_b(&self) -> i32 {
        must_not_build()
    }
}
built! { RequiredSync, RequiredSyncBuilder, FieldXError; new: RequiredSync::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| s.a(),
    "b", Required; give |b, x| b.b(x); peek |s| peek_lazy!(s, has_b, clear_b, set_b),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c(),
    "d", Required; give |b, x| b.d(x); peek |s| s.d(),
    "e", Required; give |b, x| b.e(x); peek |s| Some(s.e()),
}

#[fxstruct(builder(required))]
pub struct RequiredAll {
    #[fieldx(optional)]
    a: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    b: i32,
    #[fieldx(optional, builder(required(off)))]
    c: i32,
    d: i32,
}
impl RequiredAll {
    fn build_b(&self) -> i32 {
        must_not_build()
    }
}
built! { RequiredAll, RequiredAllBuilder, FieldXError; new: RequiredAll::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| s.a,
    "b", Required; give |b, x| b.b(x); peek |s| peek_lazy!(s, has_b, clear_b, set_b),
    "c", Unset; give |b, x| b.c(x); peek |s| s.c,
    "d", Required; give |b, x| b.d(x); peek |s| Some(s.d),
}

/// No value has a default, there is no constructor
#[fxstruct(no_new, builder)]
pub struct NoDefaults {
    a: Solid,
    #[fieldx(builder(into))]
    b: Solid,
    c: Tok,
}
#[derive(Debug)]
pub struct Solid(i32);
impl From<i32> for Solid {
    fn from(v: i32) -> Self {
        Solid(v)
    }
}
built! { NoDefaults, NoDefaultsBuilder, FieldXError; new: NoDefaults::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(Solid(x)); peek |s| Some(s.a.0),
    "b", Required; give |b, x| b.b(x); peek |s| Some(s.b.0),
    "c", Required; give |b, x| b.c(Tok(x)); peek |s| Some(s.c.0),
}

// ---- Errors

pub enum Wrapping {
    Wrapped(FieldXError),
    Other(String),
}
impl From<FieldXError> for Wrapping {
    fn from(e: FieldXError) -> Self {
        Wrapping::Wrapped(e)
    }
}
impl Failure for Wrapping {
    fn names(&self, field: &str) -> bool {
        match self {
            Wrapping::Wrapped(e) => e.names(field),
            _ => false,
        }
    }
}
#[fxstruct(builder(error(Wrapping)))]
pub struct PlainWrapping {
    a: i32,
    #[fieldx(optional)]
    b: i32,
    c: i32,
    #[fieldx(default(17))]
    d: i32,
}
built! { PlainWrapping, PlainWrappingBuilder, Wrapping; new: PlainWrapping::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Unset; give |b, x| b.b(x); peek |s| s.b,
    "c", Required; give |b, x| b.c(x); peek |s| Some(s.c),
    "d", Preset(17); give |b, x| b.d(x); peek |s| Some(s.d),
}

pub enum Variant {
    Unset(String),
    Other(FieldXError),
}
impl From<FieldXError> for Variant {
    fn from(e: FieldXError) -> Self {
        Variant::Other(e)
    }
}
impl Failure for Variant {
    fn names(&self, field: &str) -> bool {
        match self {
            Variant::Unset(f) => same_str(f, field),
            _ => false,
        }
    }
}
#[fxstruct(sync, builder(error(Variant, Variant::Unset)))]
pub struct SyncVariant {
    a: i32,
    #[fieldx(lock, get(copy))]
    b: i32,
    #[fieldx(lazy, predicate, clearer, set)]
    c: i32,
    #[fieldx(optional, get(copy), builder(required))]
    d: i32,
}
impl SyncVariant {
    fn build_c(&self) -> i32 {
        must_not_build()
    }
}
built! { SyncVariant, SyncVariantBuilder, Variant; new: SyncVariant::builder(); build: |b| b.build();
    "a", Required; give |b, x| b.a(x); peek |s| Some(s.a),
    "b", Required; give |b, x| b.b(x); peek |s| Some(s.b()),
    "c", Unset; give |b, x| b.c(x); peek |s| peek_lazy!(s, has_c, clear_c, set_c),
    "d", Required; give |b, x| b.d(x); peek |s| s.d(),
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::built_contracts;
    built_contracts! {
        required: Plain PlainDefaults PlainInto OptIn ByField OffByField Synced SyncDefaults Mixed Async AllLocked AllLazy
            AllOptional AllInner GenericTok RequiredPlain RequiredSync RequiredAll NoDefaults PlainWrapping SyncVariant;
        values: RequiredPlain RequiredSync RequiredAll NoDefaults PlainWrapping SyncVariant;
    }
    pub mod rc {
        use super::*;
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn required_plain() {
            built_ops::required::<Rc<Rced>>()
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn required_sync() {
            built_ops::required::<Arc<RcedSync>>()
        }
    }
}
