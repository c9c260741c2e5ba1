//! Writer guards of lazy fields: store and clear, never build.
use crate::{async_lazy, common::*, subject::Subject, sync_lazy};
use fieldx::fxstruct;

#[fxstruct(sync)]
pub struct Explicit {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Explicit {
    fn build_v(&self) -> i32 {
        build()
    }
}
sync_lazy!(Explicit, Explicit, Explicit::new(), |s| *s.v(), read_v, set_v, clear_v, has_v);

#[fxstruct(sync, lazy, clearer, predicate, reader, writer, set, get(copy), get_mut)]
pub struct Inherited {
    v: i32,
}
impl Inherited {
    fn build_v(&self) -> i32 {
        build()
    }
}
sync_lazy!(Inherited, Inherited, Inherited::new(), |s| s.v(), read_v, set_v, clear_v, has_v);

#[fxstruct(r#async)]
pub struct Async {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Async {
    async fn build_v(&self) -> i32 {
        build()
    }
}
async_lazy!(Async, |s| *run_now(s.v()), read_v, set_v, clear_v, has_v);

#[fxstruct(r#async, lazy, clearer, predicate, reader, writer, set, get(copy), get_mut)]
pub struct AsyncInherited {
    v: i32,
}
impl AsyncInherited {
    async fn build_v(&self) -> i32 {
        build()
    }
}
async_lazy!(AsyncInherited, |s| run_now(s.v()), read_v, set_v, clear_v, has_v);

#[fxstruct(sync)]
pub struct Fallible {
    #[fieldx(lazy, fallible(error(MyErr)), clearer, predicate, writer("wr"), set, get(copy), default(42))]
    v: i32,
}
impl Fallible {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[fxstruct(r#async)]
pub struct AsyncFallible {
    #[fieldx(lazy, fallible(error(MyErr)), clearer, predicate, writer("wr"), set, get(copy))]
    v: i32,
}
impl AsyncFallible {
    async fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::interference_contracts;
    use std::mem::ManuallyDrop;

    // Complete operations via writers under interference
    interference_contracts!(lin_explicit: Explicit, env_lin, finish, true; op_wr_store, op_wr_clear);
    interference_contracts!(lin_inherited: Inherited, env_lin, finish, true; op_wr_store, op_wr_clear);
    interference_contracts!(pub_explicit: Explicit, env_pub, finish_pub, false; op_wr_store, op_wr_clear);
    interference_contracts!(lin_async: Async, env_lin_task, finish, true; op_wr_store, op_wr_clear);
    interference_contracts!(lin_async_inherited: AsyncInherited, env_lin_task, finish, true; op_wr_store, op_wr_clear);

    /// Everything which can be done with one guard, in each state
    macro_rules! guard_contracts {
        ($( $m:ident: $t:ty, $run:ident, $wr:ident, $init:expr, |$g:ident| $read:expr; )+) => {
            $(
                pub mod $m {
                    use super::*;
                    fn start(set: bool) -> ManuallyDrop<$t> {
                        let s = ManuallyDrop::new(<$t>::new());
                        set_res(any());
                        set_g($init);
                        if set {
                            let x = any();
                            assert!($run(s.set_v(x)) == $init);
                            set_g(Some(x));
                        }
                        s
                    }
                    fn end(s: &$t) {
                        assert!(builds() == 0, "the writer has called the builder");
                        assert!(s.has_v() == g().is_some(), "the predicate contradicts the field state");
                        cover!(true, "reachable");
                        assert!($run(s.clear_v()) == g(), "the value stored last is expected");
                    }
                    /// What has been stored is what is read, and an emptied field is built anew
                    fn reread(store: bool) {
                        let s = start(true);
                        {
                            let mut guard = $run(s.$wr());
                            if store {
                                let x = any();
                                guard.store(x);
                                set_g(Some(x));
                            }
                            else {
                                guard.clear();
                                set_g(None);
                            }
                        }
                        assert!(builds() == 0);
                        let $g = &*s;
                        let r = $read;
                        if store {
                            assert!(Some(r) == g() && builds() == 0, "the value stored is expected");
                        }
                        else {
                            assert!(r == res() && builds() == 1, "an empty field has to be built");
                        }
                        cover!(true, "reachable");
                    }
                    /// Obtaining a guard does nothing
                    fn idle(set: bool) {
                        let s = start(set);
                        drop($run(s.$wr()));
                        end(&s);
                    }
                    /// Three arbitrary operations: each one's precondition is what the previous ones have left.
                    fn sequence(set: bool, n: u8) {
                        let s = start(set);
                        let mut guard = $run(s.$wr());
                        let mut i = 0;
                        while i < n {
                            if any() {
                                let x = any();
                                assert!(guard.store(x) == g(), "the value replaced is expected");
                                set_g(Some(x));
                            }
                            else {
                                assert!(guard.clear() == g(), "the value removed is expected");
                                set_g(None);
                            }
                            i += 1;
                        }
                        drop(guard);
                        end(&s);
                    }
                    #[kani::proof] #[kani::unwind(2)] pub fn idle_unset() { idle(false) }
                    #[kani::proof] #[kani::unwind(2)] pub fn idle_set() { idle(true) }
                    #[kani::proof] #[kani::unwind(2)] pub fn one_unset() { sequence(false, 1) }
                    #[kani::proof] #[kani::unwind(2)] pub fn one_set() { sequence(true, 1) }
                    #[kani::proof] #[kani::unwind(2)] pub fn reread_stored() { reread(true) }
                    #[kani::proof] #[kani::unwind(2)] pub fn reread_cleared() { reread(false) }
                    #[kani::proof] #[kani::unwind(4)] pub fn three_unset() { sequence(false, 3) }
                    #[kani::proof] #[kani::unwind(4)] pub fn three_set() { sequence(true, 3) }
                }
            )+
        };
    }
    fn id<T>(v: T) -> T {
        v
    }
    guard_contracts! {
        explicit: Explicit, id, write_v, None, |s| *s.v();
        inherited: Inherited, id, write_v, None, |s| s.v();
        fallible: Fallible, id, wr, Some(42), |s| s.v().unwrap();
        asynchronous: Async, run_now, write_v, None, |s| *run_now(s.v());
        async_inherited: AsyncInherited, run_now, write_v, None, |s| run_now(s.v());
        async_fallible: AsyncFallible, run_now, wr, None, |s| run_now(s.v()).unwrap();
    }

    /// Nobody else can do anything while there is a guard
    macro_rules! exclusive {
        ($( $m:ident: $t:ty, $run:ident, $wr:ident: $( $op:ident |$o:ident| $e:expr ),+; )+) => {
            $(
                pub mod $m {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(2)]
                        pub fn $op() {
                            let s = ManuallyDrop::new(<$t>::new());
                            set_res(any());
                            let mut guard = $run(s.$wr());
                            if any() {
                                guard.store(any());
                            }
                            cover!(true, "reachable");
                            as_env(|| {
                                let $o = &s;
                                let _ = $e;
                                panic!("the field was accessed while a writer guard is alive");
                            });
                        }
                    )+
                }
            )+
        };
    }
    exclusive! {
        exclusive_explicit: Explicit, id, write_v:
            get |s| drop(s.v()), reader |s| drop(s.read_v()), get_mut |s| drop(s.v_mut()), set |s| s.set_v(any()),
            clear |s| s.clear_v(), writer |s| drop(s.write_v());
        exclusive_async: Async, run_now, write_v:
            get |s| drop(run_now(s.v())), reader |s| drop(run_now(s.read_v())), get_mut |s| drop(run_now(s.v_mut())),
            set |s| run_now(s.set_v(any())), clear |s| run_now(s.clear_v()), writer |s| drop(run_now(s.write_v()));
        exclusive_fallible: Fallible, id, wr:
            get |s| s.v(), set |s| s.set_v(any()), clear |s| s.clear_v();
    }
}
