//! Optional fields: predicate, setter, clearer and accessors agree with each other.
use crate::common::*;
use crate::seq_subject;
use fieldx::fxstruct;

// ---- Plain

#[fxstruct]
pub struct Plain {
    #[fieldx(optional, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    other: i32,
}
seq_subject! { Plain; lazy: false; make: Plain::new(); init: None;
    read: |s| *s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| { assert!(s.has_other()); s.other().unwrap() }, |s, x| s.set_other(x);
}

/// The same fields of the other one, which has never been set
#[fxstruct]
pub struct PlainOther {
    #[fieldx(optional, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    other: i32,
}
seq_subject! { PlainOther; lazy: false; make: PlainOther::new(); init: None;
    read: |s| *s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| { assert!(!s.has_other() && s.other().is_none()); 0 }, |s, x| assume(x == 0);
}

#[fxstruct]
pub struct PlainByClearer {
    #[fieldx(clearer, get(clone), set)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
seq_subject! { PlainByClearer; lazy: false; make: PlainByClearer::new(); init: None;
    read: |s| s.v(); set: |s, x| s.set_v(x); clear: |s| s.clear_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

#[fxstruct]
pub struct PlainByPredicate {
    #[fieldx(predicate, get(as_ref), get_mut, set(into))]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
seq_subject! { PlainByPredicate; lazy: false; make: PlainByPredicate::new(); init: None;
    read: |s| s.v().copied(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

#[fxstruct(optional, get(copy), get_mut, set, clearer, predicate)]
pub struct PlainInherited {
    v: i32,
    #[fieldx(optional(off), clearer(off), predicate(off))]
    other: i32,
}
seq_subject! { PlainInherited; lazy: false; make: PlainInherited::new(); init: None;
    read: |s| s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| { let o: i32 = s.other(); o }, |s, x| s.set_other(x);
}

#[fxstruct]
pub struct PlainDefault {
    #[fieldx(optional, get(copy), set("put"), clearer("reset"), predicate("ready"), default(42))]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
seq_subject! { PlainDefault; lazy: false; make: PlainDefault::new(); init: Some(42);
    read: |s| s.v(); set: |s, x| s.put(x); clear: |s| s.reset(); has: |s| s.ready();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

#[fxstruct(no_new, builder)]
pub struct PlainBuilt {
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
seq_subject! { PlainBuilt; lazy: false; make: PlainBuilt::builder().other(0).build().unwrap(); init: None;
    read: |s| s.v(); set: |s, x| s.set_v(x); clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}
pub struct PlainGiven(PlainBuilt);
seq_subject! { PlainGiven; lazy: false; make: PlainGiven(PlainBuilt::builder().v(7).other(0).build().unwrap()); init: Some(7);
    read: |s| s.0.v(); set: |s, x| s.0.set_v(x); clear: |s| s.0.clear_v(); has: |s| s.0.has_v();
    frame: |s| s.0.other(), |s, x| s.0.set_other(x);
}

// ---- Interior mutability

#[fxstruct]
pub struct Inner {
    #[fieldx(inner_mut, optional, get(copy), get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
seq_subject! { Inner; lazy: false; make: Inner::new(); init: None;
    read: |s| s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}
#[fxstruct(inner_mut, get, get_mut, set, clearer, predicate)]
pub struct InnerInherited {
    v: i32,
    #[fieldx(optional(off), clearer(off), predicate(off))]
    other: i32,
}
seq_subject! { InnerInherited; lazy: false; make: InnerInherited::new(); init: None;
    read: |s| *s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| *s.other(), |s, x| s.set_other(x);
}

// ---- Sync

#[fxstruct(sync)]
pub struct Sync {
    #[fieldx(optional, get, get_mut, set, clearer, predicate, reader, writer)]
    v: i32,
    #[fieldx(optional, get(copy), set, clearer, predicate)]
    other: i32,
}
seq_subject! { Sync; lazy: false; make: Sync::new(); init: None;
    read: |s| { let r = *s.v(); assert!(*s.read_v() == r); r };
    modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| { assert!(s.has_other()); s.other().unwrap() }, |s, x| s.set_other(x);
}
/// Via writer
pub struct SyncWriter(Sync);
seq_subject! { SyncWriter; lazy: false; make: SyncWriter(Sync::new()); init: None;
    read: |s| *s.0.v(); modify: |s, x| s.0.write_v().as_mut().map(|v| std::mem::replace(v, x));
    set: |s, x| s.0.write_v().replace(x); clear: |s| s.0.write_v().take(); has: |s| s.0.has_v();
    frame: |s| { assert!(s.0.has_other()); s.0.other().unwrap() }, |s, x| s.0.set_other(x);
}

#[fxstruct(sync, optional, get(copy), set, clearer, predicate, reader("rd_"))]
pub struct SyncInherited {
    v: i32,
    #[fieldx(optional(off), clearer(off), predicate(off))]
    other: i32,
}
seq_subject! { SyncInherited; lazy: false; make: SyncInherited::new(); init: None;
    read: |s| { let r = s.v(); assert!(*s.rd_v() == r); r }; set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| { let o: i32 = s.other(); o }, |s, x| s.set_other(x);
}

#[fxstruct(sync)]
pub struct SyncByClearer {
    #[fieldx(clearer, get(clone), set)]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: i32,
}
seq_subject! { SyncByClearer; lazy: false; make: SyncByClearer::new(); init: None;
    read: |s| s.v(); set: |s, x| s.set_v(x); clear: |s| s.clear_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

#[fxstruct(sync)]
pub struct SyncByPredicate {
    #[fieldx(predicate, get(copy), set(into))]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: i32,
}
seq_subject! { SyncByPredicate; lazy: false; make: SyncByPredicate::new(); init: None;
    read: |s| s.v(); set: |s, x| s.set_v(x); has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

#[fxstruct(sync, builder)]
pub struct SyncDefault {
    #[fieldx(optional, get(copy), set, clearer, predicate, default(42))]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: i32,
}
seq_subject! { SyncDefault; lazy: false; make: SyncDefault::builder().other(0).build().unwrap(); init: Some(42);
    read: |s| s.v(); set: |s, x| s.set_v(x); clear: |s| s.clear_v(); has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}
pub struct SyncGiven(SyncDefault);
seq_subject! { SyncGiven; lazy: false; make: SyncGiven(SyncDefault::builder().other(0).v(7).build().unwrap()); init: Some(7);
    read: |s| s.0.v(); set: |s, x| s.0.set_v(x); clear: |s| s.0.clear_v(); has: |s| s.0.has_v();
    frame: |s| s.0.other(), |s, x| s.0.set_other(x);
}

/// No lock
#[fxstruct(sync)]
pub struct SyncUnlocked {
    #[fieldx(optional, lock(off), get, get_mut, set, predicate)]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: i32,
}
seq_subject! { SyncUnlocked; lazy: false; make: SyncUnlocked::new(); init: None;
    read: |s| *s.v(); modify: |s, x| s.v_mut().as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| s.set_v(x);
    has: |s| s.has_v();
    frame: |s| s.other(), |s, x| s.set_other(x);
}

// ---- Async

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(optional, get, set, clearer, predicate, reader, writer)]
    v: i32,
    #[fieldx(optional, reader, set, clearer, predicate)]
    other: i32,
}
seq_subject! { Async; lazy: false; make: Async::new(); init: None;
    read: |s| { let r = *run_now(s.v()); assert!(*run_now(s.read_v()) == r); r };
    modify: |s, x| run_now(s.write_v()).as_mut().map(|v| std::mem::replace(v, x)); set: |s, x| run_now(s.set_v(x));
    clear: |s| run_now(s.clear_v()); has: |s| run_now(s.has_v());
    frame: |s| { assert!(run_now(s.has_other())); run_now(s.read_other()).unwrap() }, |s, x| run_now(s.set_other(x));
}

#[fxstruct(r#async, clearer, predicate, set, reader, builder)]
pub struct AsyncInherited {
    v: i32,
    #[fieldx(optional(off), clearer(off), predicate(off))]
    other: i32,
}
seq_subject! { AsyncInherited; lazy: false; make: AsyncInherited::builder().other(0).v(7).build().unwrap(); init: Some(7);
    read: |s| *run_now(s.read_v()); set: |s, x| run_now(s.set_v(x));
    clear: |s| run_now(s.clear_v()); has: |s| run_now(s.has_v());
    frame: |s| *run_now(s.read_other()), |s, x| run_now(s.set_other(x));
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::seq::Seq;
    use crate::seq_contracts;

    seq_contracts!(plain: Plain);
    seq_contracts!(plain_other: PlainOther);
    seq_contracts!(plain_by_clearer: PlainByClearer; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared);
    seq_contracts!(plain_by_predicate: PlainByPredicate; read: New Set; modify: New Set; set: New Set; has: New Set);
    seq_contracts!(plain_inherited: PlainInherited);
    seq_contracts!(plain_default: PlainDefault; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(plain_built: PlainBuilt; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(plain_given: PlainGiven; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(inner: Inner);
    seq_contracts!(inner_inherited: InnerInherited);
    seq_contracts!(sync: Sync);
    seq_contracts!(sync_writer: SyncWriter);
    seq_contracts!(sync_inherited: SyncInherited; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(sync_by_clearer: SyncByClearer; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared);
    seq_contracts!(sync_by_predicate: SyncByPredicate; read: New Set; set: New Set; has: New Set);
    seq_contracts!(sync_default: SyncDefault; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(sync_given: SyncGiven; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
    seq_contracts!(sync_unlocked: SyncUnlocked; read: New Set; modify: New Set; set: New Set; has: New Set);
    seq_contracts!(asynchronous: Async);
    seq_contracts!(async_inherited: AsyncInherited; read: New Set Cleared; set: New Set Cleared; clear: New Set Cleared; has: New Set Cleared);
}
