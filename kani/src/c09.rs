//! Setters.
use crate::{common::*, forms};
use fieldx::fxstruct;

fn un(t: Tok) -> Option<i32> {
    Some(untok(t))
}

// ---- Plain

#[fxstruct]
pub struct Plain {
    #[fieldx(set, get(copy))]
    a: i32,
    #[fieldx(set("assign_b"), get(copy))]
    b: i32,
    #[fieldx(set, get)]
    c: Tok,
    #[fieldx(set(into), get)]
    d: Tok,
    #[fieldx(set(into), get(copy))]
    e: i32,
    #[fieldx(set, get(copy), default(17))]
    f: i32,
}
forms! { Plain, Plain::new();
    Some(0); set |s, x| Some(s.set_a(x)); view |s| Some(s.a()),
    Some(0); set |s, x| Some(s.assign_b(x)); view |s| Some(s.b()),
    Some(0); set |s, x| un(s.set_c(Tok(x))); view |s| Some(s.c().0),
    Some(0); set |s, x| un(s.set_d(x)); view |s| Some(s.d().0),
    Some(0); set |s, x| { let y = x as i16; assume(y as i32 == x); Some(s.set_e(y)) }; view |s| Some(s.e()),
    Some(17); set |s, x| Some(s.set_f(x)); view |s| Some(s.f()),
}

#[fxstruct]
pub struct PlainOpt {
    #[fieldx(optional, set, get(copy))]
    a: i32,
    #[fieldx(optional, set(into), get(as_ref))]
    b: Tok,
    #[fieldx(optional, set, get, default(Tok(17)))]
    c: Tok,
    #[fieldx(predicate, set, get(copy))]
    d: i32,
}
forms! { PlainOpt, PlainOpt::new();
    None; set |s, x| s.set_a(x); view |s| s.a(),
    None; set |s, x| s.set_b(x).and_then(un); view |s| s.b().map(|t| t.0),
    Some(17); set |s, x| s.set_c(Tok(x)).and_then(un); view |s| s.c().as_ref().map(|t| t.0),
    None; set |s, x| s.set_d(x); view |s| { assert!(s.has_d()); s.d() },
}

#[fxstruct]
pub struct PlainLazy {
    #[fieldx(lazy, set, get(copy))]
    a: i32,
    #[fieldx(lazy, set(into), get)]
    b: Tok,
    #[fieldx(lazy, set("put_c"), get, default(Tok(17)))]
    c: Tok,
}
impl PlainLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> Tok {
        must_not_build()
    }
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { PlainLazy, PlainLazy::new();
    None; set |s, x| s.set_a(x); view |s| Some(s.a()),
    None; set |s, x| s.set_b(x).and_then(un); view |s| Some(s.b().0),
    Some(17); set |s, x| s.put_c(Tok(x)).and_then(un); view |s| Some(s.c().0),
}

#[fxstruct]
pub struct PlainInner {
    #[fieldx(inner_mut, set, get(copy))]
    a: i32,
    #[fieldx(inner_mut, set(into), get)]
    b: Tok,
    #[fieldx(inner_mut, optional, set, get(copy))]
    c: i32,
    #[fieldx(inner_mut, optional, set(into), get)]
    d: Tok,
}
forms! { PlainInner, PlainInner::new();
    Some(0); set |s, x| { let s: &PlainInner = s; Some(s.set_a(x)) }; view |s| Some(s.a()),
    Some(0); set |s, x| { let s: &PlainInner = s; un(s.set_b(x)) }; view |s| Some(s.b().0),
    None; set |s, x| { let s: &PlainInner = s; s.set_c(x) }; view |s| s.c(),
    None; set |s, x| { let s: &PlainInner = s; s.set_d(x).and_then(un) }; view |s| s.d().as_ref().map(|t| t.0),
}

// Struct-level forms, and overriding them
#[fxstruct(into, set, get)]
pub struct Intos {
    a: Tok,
    #[fieldx(into(off), set)]
    b: Tok,
    #[fieldx(into(off))]
    c: Tok,
    #[fieldx(optional)]
    d: Tok,
    #[fieldx(set("update_e"))]
    e: Tok,
}
forms! { Intos, Intos::new();
    Some(0); set |s, x| un(s.set_a(x)); view |s| Some(s.a().0),
    Some(0); set |s, x| un(s.set_b(Tok(x))); view |s| Some(s.b().0),
    Some(0); set |s, x| un(s.set_c(Tok(x))); view |s| Some(s.c().0),
    None; set |s, x| s.set_d(x).and_then(un); view |s| s.d().as_ref().map(|t| t.0),
    Some(0); set |s, x| un(s.update_e(x)); view |s| Some(s.e().0),
}
#[fxstruct(set("with_", into), get)]
pub struct SetInto {
    a: Tok,
    #[fieldx(into(off))]
    b: Tok,
    #[fieldx(lazy)]
    c: Tok,
    #[fieldx(set("put_d"))]
    d: Tok,
}
impl SetInto {
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { SetInto, SetInto::new();
    Some(0); set |s, x| un(s.with_a(x)); view |s| Some(s.a().0),
    Some(0); set |s, x| un(s.with_b(Tok(x))); view |s| Some(s.b().0),
    None; set |s, x| s.with_c(x).and_then(un); view |s| Some(s.c().0),
    Some(0); set |s, x| un(s.put_d(x)); view |s| Some(s.d().0),
}

// ---- Sync

#[fxstruct(sync)]
pub struct Sync {
    #[fieldx(set, get)]
    a: Tok,
    #[fieldx(set(into), get)]
    b: Tok,
    #[fieldx(optional, lock(off), set, get)]
    c: Tok,
    #[fieldx(optional, lock(off), set(into), get)]
    d: Tok,
}
forms! { Sync, Sync::new();
    Some(0); set |s, x| un(s.set_a(Tok(x))); view |s| Some(s.a().0),
    Some(0); set |s, x| un(s.set_b(x)); view |s| Some(s.b().0),
    None; set |s, x| s.set_c(Tok(x)).and_then(un); view |s| s.c().as_ref().map(|t| t.0),
    None; set |s, x| s.set_d(x).and_then(un); view |s| s.d().as_ref().map(|t| t.0),
}

#[fxstruct(sync, lock)]
pub struct SyncLocked {
    #[fieldx(set, get)]
    a: Tok,
    #[fieldx(set(into), get)]
    b: Tok,
    #[fieldx(optional, set, get)]
    c: Tok,
    #[fieldx(optional, set(into), get)]
    d: Tok,
    #[fieldx(set("change_e"), get(copy), default(17))]
    e: i32,
}
forms! { SyncLocked, SyncLocked::new();
    Some(0); set |s, x| { let s: &SyncLocked = s; un(s.set_a(Tok(x))) }; view |s| Some(s.a().0),
    Some(0); set |s, x| { let s: &SyncLocked = s; un(s.set_b(x)) }; view |s| Some(s.b().0),
    None; set |s, x| { let s: &SyncLocked = s; s.set_c(Tok(x)).and_then(un) }; view |s| s.c().as_ref().map(|t| t.0),
    None; set |s, x| { let s: &SyncLocked = s; s.set_d(x).and_then(un) }; view |s| s.d().as_ref().map(|t| t.0),
    Some(17); set |s, x| { let s: &SyncLocked = s; Some(s.change_e(x)) }; view |s| Some(s.e()),
}

#[fxstruct(sync, lazy, into, set)]
pub struct SyncLazy {
    #[fieldx(get(copy), into(off), set)]
    a: i32,
    b: Tok,
    #[fieldx(default(Tok(17)), into(off), set("put_c"))]
    c: Tok,
}
impl SyncLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> Tok {
        must_not_build()
    }
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { SyncLazy, SyncLazy::new();
    None; set |s, x| { let s: &SyncLazy = s; s.set_a(x) }; view |s| Some(s.a()),
    None; set |s, x| { let s: &SyncLazy = s; s.set_b(x).and_then(un) }; view |s| Some(s.b().0),
    Some(17); set |s, x| { let s: &SyncLazy = s; s.put_c(Tok(x)).and_then(un) }; view |s| Some(s.c().0),
}

// ---- Async

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(set, get)]
    a: Tok,
    #[fieldx(set(into), lock, get)]
    b: Tok,
    #[fieldx(set, optional, get)]
    c: Tok,
    #[fieldx(set(into), optional, lock(off), get)]
    d: Tok,
}
forms! { Async, Async::new();
    Some(0); set |s, x| un(s.set_a(Tok(x))); view |s| Some(s.a().0),
    Some(0); set |s, x| { let s: &Async = s; un(run_now(s.set_b(x))) }; view |s| Some(run_now(s.b()).0),
    None; set |s, x| { let s: &Async = s; run_now(s.set_c(Tok(x))).and_then(un) }; view |s| run_now(s.c()).as_ref().map(|t| t.0),
    None; set |s, x| s.set_d(x).and_then(un); view |s| s.d().as_ref().map(|t| t.0),
}

#[fxstruct(r#async, set)]
pub struct AsyncLazy {
    #[fieldx(lazy, into, clearer)]
    a: Tok,
    #[fieldx(get(copy))]
    b: i32,
}
impl AsyncLazy {
    async fn build_a(&self) -> Tok {
        must_not_build()
    }
}
forms! { AsyncLazy, AsyncLazy::new();
    None; set |s, x| { let s: &AsyncLazy = s; run_now(s.set_a(x)).and_then(un) };
        view |s| { let t = run_now(s.clear_a()).unwrap(); let x = t.0; s.set_a_back(t); Some(x) },
    Some(0); set |s, x| Some(s.set_b(x)); view |s| Some(s.b()),
}
impl AsyncLazy {
    fn set_a_back(&self, t: Tok) {
        assert!(run_now(self.set_a(t)).is_none());
    }
}

// ---- Fields of other modes

#[fxstruct]
pub struct Mixed {
    #[fieldx(sync, lock, set, get)]
    a: Tok,
    #[fieldx(set, get)]
    b: Tok,
    #[fieldx(mode(sync), optional, set(into), get)]
    c: Tok,
    #[fieldx(sync, lazy, set, get)]
    d: Tok,
}
impl Mixed {
    fn build_d(&self) -> Tok {
        must_not_build()
    }
}
forms! { Mixed, Mixed::new();
    Some(0); set |s, x| { let s: &Mixed = s; un(s.set_a(Tok(x))) }; view |s| Some(s.a().0),
    Some(0); set |s, x| un(s.set_b(Tok(x))); view |s| Some(s.b().0),
    None; set |s, x| { let s: &Mixed = s; s.set_c(x).and_then(un) }; view |s| s.c().as_ref().map(|t| t.0),
    None; set |s, x| { let s: &Mixed = s; s.set_d(Tok(x)).and_then(un) }; view |s| Some(s.d().0),
}
#[fxstruct(sync, lock, set)]
pub struct MixedSync {
    #[fieldx(mode(plain), get)]
    a: Tok,
    #[fieldx(get)]
    b: Tok,
    #[fieldx(mode(plain), lazy, get)]
    c: Tok,
}
impl MixedSync {
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { MixedSync, MixedSync::new();
    Some(0); set |s, x| un(s.set_a(Tok(x))); view |s| Some(s.a().0),
    Some(0); set |s, x| { let s: &MixedSync = s; un(s.set_b(Tok(x))) }; view |s| Some(s.b().0),
    None; set |s, x| s.set_c(Tok(x)).and_then(un); view |s| Some(s.c().0),
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::forms_contracts;
    forms_contracts! {
        set: Plain PlainOpt PlainLazy PlainInner Intos SetInto Sync SyncLocked SyncLazy Async AsyncLazy Mixed MixedSync;
    }
}
