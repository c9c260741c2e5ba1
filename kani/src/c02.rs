//! Lazy fields of async structs: at most one build per unset period under any interleaving of tasks and any cancellation.
use crate::common::*;
use crate::{async_lazy, subject::Subject};
use fieldx::fxstruct;

#[fxstruct(r#async)]
pub struct Explicit {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Explicit {
    async fn build_v(&self) -> i32 {
        build()
    }
}

async_lazy!(Explicit, |s| *run_now(s.v()), read_v, set_v, clear_v, has_v);

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::interference_contracts;

    interference_contracts!(lin_explicit: Explicit, env_lin_task, finish, true;
        op_read, op_hold, op_modify, op_set, op_clear, op_has, op_wr_store, op_wr_clear);
    interference_contracts!(pub_explicit: Explicit, env_pub_task, finish_pub, false;
        op_read, op_modify, op_set, op_clear, op_wr_store, op_wr_clear);
}

/// The builder waits for something else.
#[fxstruct(r#async)]
pub struct Yielding {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Yielding {
    async fn build_v(&self) -> i32 {
        unsafe {
            BEGUN += 1;
        }
        build_begin();
        YieldOnce(true).await;
        build_end()
    }
}
/// Builds started
static mut BEGUN: u8 = 0;
fn begun() -> u8 {
    unsafe { BEGUN }
}

#[cfg(kani)]
pub mod tasks {
    use super::*;
    use std::{mem::ManuallyDrop, pin::pin, task::Poll};

    /// Two tasks want a value, the first one is suspended inside of the builder: the other one waits and gets the value
    /// the first one has built.
    macro_rules! two_tasks {
        ($( $name:ident: |$s:ident| $first:expr, $second:expr );+ $(;)?) => {
            $(
                #[kani::proof]
                #[kani::unwind(2)]
                pub fn $name() {
                    let s = ManuallyDrop::new(Yielding::new());
                    let $s = &s;
                    set_res(any());
                    let mut a = pin!($first);
                    let mut b = pin!($second);
                    assert!(poll1(a.as_mut()).is_pending());
                    assert!(poll1(b.as_mut()).is_pending(), "a task doesn't wait for the build to complete");
                    assert!(begun() == 1, "a build was started while another one is in progress");
                    assert!(!s.has_v(), "the predicate claims there is a value before it is built");
                    match poll1(a.as_mut()) {
                        Poll::Ready(v) => assert!(*v == res()),
                        Poll::Pending => panic!("the value is built, yet the task is still waiting"),
                    }
                    assert!(begun() == 1 && builds() == 1);
                    assert!(s.has_v());
                    cover!(true, "reachable");
                }
            )+
        };
    }
    two_tasks! {
        read_read: |s| s.v(), s.v();
        read_reader: |s| s.read_v(), s.v_mut();
        mut_read: |s| s.v_mut(), s.read_v();
        read_set: |s| s.v(), s.set_v(any());
        read_clear: |s| s.v(), s.clear_v();
        read_write: |s| s.v(), s.write_v();
    }

    /// A task cancelled in the middle of the build leaves the field unset and unlocked, the next one builds the value.
    macro_rules! cancel {
        ($( $name:ident: |$s:ident| $first:expr );+ $(;)?) => {
            $(
                #[kani::proof]
                #[kani::unwind(2)]
                pub fn $name() {
                    let s = ManuallyDrop::new(Yielding::new());
                    let $s = &s;
                    set_res(any());
                    {
                        let mut a = pin!($first);
                        assert!(poll1(a.as_mut()).is_pending());
                    }
                    assert!(!s.has_v(), "the build was cancelled but the predicate claims there is a value");
                    let x = any();
                    if any() {
                        match poll1(pin!(s.set_v(x))) {
                            Poll::Ready(r) => assert!(r.is_none(), "the build was cancelled but there is a value"),
                            Poll::Pending => panic!("the build was cancelled but the field is still locked"),
                        }
                        assert!(s.has_v());
                    }
                    else {
                        match poll1(pin!(s.clear_v())) {
                            Poll::Ready(r) => assert!(r.is_none(), "the build was cancelled but there is a value"),
                            Poll::Pending => panic!("the build was cancelled but the field is still locked"),
                        }
                    }
                    cover!(true, "reachable");
                }
            )+
        };
    }
    cancel! {
        cancel_read: |s| s.v();
        cancel_reader: |s| s.read_v();
        cancel_mut: |s| s.v_mut();
    }

    /// ... and builds it in full
    #[kani::proof]
    #[kani::unwind(2)]
    pub fn cancel_retry() {
        let s = ManuallyDrop::new(Yielding::new());
        set_res(any());
        {
            let mut a = pin!(s.v());
            assert!(poll1(a.as_mut()).is_pending());
        }
        unsafe { crate::common::BUILDING = false };
        let mut b = pin!(s.v());
        assert!(poll1(b.as_mut()).is_pending());
        match poll1(b.as_mut()) {
            Poll::Ready(v) => assert!(*v == res()),
            Poll::Pending => panic!("the value is built, yet the task is still waiting"),
        }
        assert!(begun() == 2 && builds() == 1);
        cover!(true, "reachable");
    }
}
