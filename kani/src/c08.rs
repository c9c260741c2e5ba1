//! Accessors and mutable accessors.
use crate::{common::*, forms};
use fieldx::fxstruct;

fn tok(t: &Tok) -> Option<i32> {
    Some(t.0)
}

// ---- Plain

#[fxstruct]
pub struct Plain {
    #[fieldx(get, get_mut, set)]
    a: i32,
    #[fieldx(get(copy), get_mut, set)]
    b: i32,
    #[fieldx(get(clone), get_mut, set)]
    c: Tok,
    #[fieldx(copy, get, set)]
    d: i32,
    #[fieldx(clone, get("read_e"), get_mut("change_e"), set)]
    e: Tok,
    #[fieldx(get, get_mut, set)]
    f: i32,
}
forms! { Plain, Plain::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: &i32 = s.a(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.b_mut(); *m = x },
    None; set |s, x| tok(&s.set_c(Tok(x))); view |s| { let r: Tok = s.c(); tok(&r) }; mutate |s, x| { let m: &mut Tok = s.c_mut(); m.0 = x },
    None; set |s, x| Some(s.set_d(x)); view |s| { let r: i32 = s.d(); Some(r) },
    None; set |s, x| tok(&s.set_e(Tok(x))); view |s| { let r: Tok = s.read_e(); tok(&r) }; mutate |s, x| { let m: &mut Tok = s.change_e(); m.0 = x },
    None; set |s, x| Some(s.set_f(x)); view |s| { let r: &i32 = s.f(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.f_mut(); *m = x },
}

#[fxstruct]
pub struct PlainOpt {
    #[fieldx(optional, get, get_mut, set)]
    a: i32,
    #[fieldx(optional, get(copy), get_mut, set)]
    b: i32,
    #[fieldx(optional, get(clone), get_mut, set)]
    c: Tok,
    #[fieldx(optional, get(as_ref), get_mut, set)]
    d: Tok,
    #[fieldx(optional, copy, get, set)]
    e: i32,
    #[fieldx(optional, clone, get, set)]
    f: i32,
}
forms! { PlainOpt, PlainOpt::new();
    None; set |s, x| s.set_a(x); view |s| { let r: &Option<i32> = s.a(); *r }; mutate |s, x| { let m: &mut Option<i32> = s.a_mut(); *m = Some(x) },
    None; set |s, x| s.set_b(x); view |s| { let r: Option<i32> = s.b(); r }; mutate |s, x| { let m: &mut Option<i32> = s.b_mut(); *m = Some(x) },
    None; set |s, x| s.set_c(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Option<Tok> = s.c(); r.and_then(|t| tok(&t)) }; mutate |s, x| { let m: &mut Option<Tok> = s.c_mut(); *m = Some(Tok(x)) },
    None; set |s, x| s.set_d(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Option<&Tok> = s.d(); r.and_then(tok) }; mutate |s, x| { let m: &mut Option<Tok> = s.d_mut(); m.as_mut().unwrap().0 = x },
    None; set |s, x| s.set_e(x); view |s| { let r: Option<i32> = s.e(); r },
    None; set |s, x| s.set_f(x); view |s| { let r: Option<i32> = s.f(); r },
}

#[fxstruct]
pub struct PlainLazy {
    #[fieldx(lazy, get, get_mut, set)]
    a: i32,
    #[fieldx(lazy, get(copy), get_mut, set)]
    b: i32,
    #[fieldx(lazy, get(clone), get_mut, set)]
    c: Tok,
    #[fieldx(get, get_mut, set)]
    d: i32,
}
impl PlainLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        must_not_build()
    }
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { PlainLazy, PlainLazy::new();
    None; set |s, x| s.set_a(x); view |s| { let r: &i32 = s.a(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| s.set_b(x); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.b_mut(); *m = x },
    None; set |s, x| s.set_c(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Tok = s.c(); tok(&r) }; mutate |s, x| { let m: &mut Tok = s.c_mut(); m.0 = x },
    None; set |s, x| Some(s.set_d(x)); view |s| { let r: &i32 = s.d(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.d_mut(); *m = x },
}

/// Struct-level accessor forms
#[fxstruct(get(copy), get_mut, set)]
pub struct PlainInherited {
    a: i32,
    #[fieldx(get(clone))]
    b: Tok,
    #[fieldx(optional)]
    c: i32,
    d: i32,
}
forms! { PlainInherited, PlainInherited::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: i32 = s.a(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| tok(&s.set_b(Tok(x))); view |s| { let r: Tok = s.b(); tok(&r) }; mutate |s, x| { let m: &mut Tok = s.b_mut(); m.0 = x },
    None; set |s, x| s.set_c(x); view |s| { let r: Option<i32> = s.c(); r }; mutate |s, x| { let m: &mut Option<i32> = s.c_mut(); *m = Some(x) },
    None; set |s, x| Some(s.set_d(x)); view |s| { let r: i32 = s.d(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.d_mut(); *m = x },
}
#[fxstruct(clone, get("fetch_"), get_mut("change_"), set)]
pub struct PlainCloned {
    a: Tok,
    #[fieldx(copy)]
    b: i32,
    #[fieldx(optional)]
    c: Tok,
}
forms! { PlainCloned, PlainCloned::new();
    None; set |s, x| tok(&s.set_a(Tok(x))); view |s| { let r: Tok = s.fetch_a(); tok(&r) }; mutate |s, x| { let m: &mut Tok = s.change_a_mut(); m.0 = x },
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.fetch_b(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.change_b_mut(); *m = x },
    None; set |s, x| s.set_c(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Option<Tok> = s.fetch_c(); r.and_then(|t| tok(&t)) }; mutate |s, x| { let m: &mut Option<Tok> = s.change_c_mut(); *m = Some(Tok(x)) },
}

// ---- Sync

#[fxstruct(sync)]
pub struct Sync {
    #[fieldx(get, get_mut, set)]
    a: i32,
    #[fieldx(get(copy), get_mut, set)]
    b: i32,
    #[fieldx(get(clone), set)]
    c: Tok,
    #[fieldx(optional, lock(off), get, get_mut, set)]
    d: i32,
    #[fieldx(optional, lock(off), get(copy), set)]
    e: i32,
    #[fieldx(optional, lock(off), get(clone), set)]
    f: Tok,
}
forms! { Sync, Sync::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: &i32 = s.a(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.b_mut(); *m = x },
    None; set |s, x| tok(&s.set_c(Tok(x))); view |s| { let r: Tok = s.c(); tok(&r) },
    None; set |s, x| s.set_d(x); view |s| { let r: &Option<i32> = s.d(); *r }; mutate |s, x| { let m: &mut Option<i32> = s.d_mut(); *m = Some(x) },
    None; set |s, x| s.set_e(x); view |s| { let r: Option<i32> = s.e(); r },
    None; set |s, x| s.set_f(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Option<Tok> = s.f(); r.and_then(|t| tok(&t)) },
}

#[fxstruct(sync)]
pub struct SyncLocked {
    #[fieldx(lock, get, get_mut, set)]
    a: i32,
    #[fieldx(lock, get(copy), get_mut, set)]
    b: i32,
    #[fieldx(lock, get(clone), set)]
    c: Tok,
    #[fieldx(optional, get, get_mut, set)]
    d: i32,
    #[fieldx(optional, get(copy), get_mut, set)]
    e: i32,
    #[fieldx(optional, get(clone), set)]
    f: Tok,
}
forms! { SyncLocked, SyncLocked::new();
    None; set |s, x| Some(s.set_a(x)); view |s| Some(*s.a()); mutate |s, x| *s.a_mut() = x,
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| *s.b_mut() = x,
    None; set |s, x| tok(&s.set_c(Tok(x))); view |s| { let r: Tok = s.c(); tok(&r) },
    None; set |s, x| s.set_d(x); view |s| *s.d(); mutate |s, x| *s.d_mut() = Some(x),
    None; set |s, x| s.set_e(x); view |s| { let r: Option<i32> = s.e(); r }; mutate |s, x| *s.e_mut() = Some(x),
    None; set |s, x| s.set_f(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Option<Tok> = s.f(); r.and_then(|t| tok(&t)) },
}

#[fxstruct(sync)]
pub struct SyncLazy {
    #[fieldx(lazy, get, get_mut, set)]
    a: i32,
    #[fieldx(lazy, get(copy), get_mut, set)]
    b: i32,
    #[fieldx(lazy, get(clone), get_mut, set)]
    c: Tok,
}
impl SyncLazy {
    fn build_a(&self) -> i32 {
        must_not_build()
    }
    fn build_b(&self) -> i32 {
        must_not_build()
    }
    fn build_c(&self) -> Tok {
        must_not_build()
    }
}
forms! { SyncLazy, SyncLazy::new();
    None; set |s, x| s.set_a(x); view |s| Some(*s.a()); mutate |s, x| *s.a_mut() = x,
    None; set |s, x| s.set_b(x); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| *s.b_mut() = x,
    None; set |s, x| s.set_c(Tok(x)).and_then(|t| tok(&t)); view |s| { let r: Tok = s.c(); tok(&r) }; mutate |s, x| s.c_mut().0 = x,
}

#[fxstruct(sync, lock, get(copy), get_mut, set, reader, writer)]
pub struct SyncInherited {
    a: i32,
    #[fieldx(get(clone))]
    b: Tok,
    #[fieldx(optional)]
    c: i32,
    #[fieldx(lock(off), reader(off), writer(off))]
    d: i32,
}
forms! { SyncInherited, SyncInherited::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: i32 = s.a(); assert!(*s.read_a() == r); Some(r) }; mutate |s, x| *s.a_mut() = x,
    None; set |s, x| tok(&s.set_b(Tok(x))); view |s| { let r: Tok = s.b(); assert!(s.read_b().0 == r.0); tok(&r) }; mutate |s, x| s.write_b().0 = x,
    None; set |s, x| s.set_c(x); view |s| { let r: Option<i32> = s.c(); assert!(*s.read_c() == r); r }; mutate |s, x| *s.write_c() = Some(x),
    None; set |s, x| Some(s.set_d(x)); view |s| { let r: i32 = s.d(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.d_mut(); *m = x },
}

// ---- Async

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(get, get_mut, lock(off), set)]
    a: i32,
    #[fieldx(lock, get, set, writer)]
    b: i32,
    #[fieldx(optional, get, set, reader)]
    c: i32,
    #[fieldx(get(clone), set)]
    d: Tok,
}
forms! { Async, Async::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: &i32 = s.a(); Some(*r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| Some(run_now(s.set_b(x))); view |s| Some(*run_now(s.b())); mutate |s, x| *run_now(s.write_b()) = x,
    None; set |s, x| run_now(s.set_c(x)); view |s| { let r = *run_now(s.c()); assert!(*run_now(s.read_c()) == r); r },
    None; set |s, x| tok(&s.set_d(Tok(x))); view |s| { let r: Tok = s.d(); tok(&r) },
}

#[fxstruct(r#async)]
pub struct AsyncLazy {
    #[fieldx(lazy, get(clone), get_mut, set)]
    a: Tok,
    #[fieldx(get(copy), set)]
    b: i32,
}
impl AsyncLazy {
    async fn build_a(&self) -> Tok {
        must_not_build()
    }
}
forms! { AsyncLazy, AsyncLazy::new();
    None; set |s, x| run_now(s.set_a(Tok(x))).and_then(|t| tok(&t)); view |s| { let r: Tok = run_now(s.a()); tok(&r) }; mutate |s, x| run_now(s.a_mut()).0 = x,
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.b(); Some(r) },
}
#[fxstruct(r#async)]
pub struct AsyncLazyCopy {
    #[fieldx(lazy, get(copy), get_mut, set)]
    a: i32,
}
impl AsyncLazyCopy {
    async fn build_a(&self) -> i32 {
        must_not_build()
    }
}
forms! { AsyncLazyCopy, AsyncLazyCopy::new();
    None; set |s, x| run_now(s.set_a(x)); view |s| { let r: i32 = run_now(s.a()); Some(r) }; mutate |s, x| *run_now(s.a_mut()) = x,
}

// ---- Field of one mode in a struct of another one
#[fxstruct]
pub struct Mixed {
    #[fieldx(get(copy), get_mut, set)]
    a: i32,
    #[fieldx(sync, lock, get(copy), get_mut, set)]
    b: i32,
    #[fieldx(mode(sync), optional, get(copy), set)]
    c: i32,
    #[fieldx(lock, get, set)]
    d: i32,
}
forms! { Mixed, Mixed::new();
    None; set |s, x| Some(s.set_a(x)); view |s| { let r: i32 = s.a(); Some(r) }; mutate |s, x| { let m: &mut i32 = s.a_mut(); *m = x },
    None; set |s, x| Some(s.set_b(x)); view |s| { let r: i32 = s.b(); Some(r) }; mutate |s, x| *s.b_mut() = x,
    None; set |s, x| s.set_c(x); view |s| { let r: Option<i32> = s.c(); r },
    None; set |s, x| Some(s.set_d(x)); view |s| Some(*s.d()),
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::forms_contracts;
    forms_contracts! {
        view: Plain PlainOpt PlainLazy PlainInherited PlainCloned Sync SyncLocked SyncLazy SyncInherited Async AsyncLazy AsyncLazyCopy Mixed;
        mutate: Plain PlainOpt PlainLazy PlainInherited PlainCloned Sync SyncLocked SyncLazy SyncInherited Async AsyncLazy AsyncLazyCopy Mixed;
    }
}
