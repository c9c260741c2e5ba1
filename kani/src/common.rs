//! Ghost state and the contract vocabulary shared by all the harnesses.
#![allow(dead_code, static_mut_refs)]
pub use fxghost::{as_env, install, interfere, quiesce, Pt};
use std::{
    future::Future,
    pin::{pin, Pin},
    task::{Context, Poll, Waker},
};

#[cfg(kani)]
pub use kani::{any, assume, cover};

/// Abstract value of the field under verification, as all the completed operations define it.
pub static mut G: Option<i32> = None;
/// How many times the builder has been completed.
pub static mut BUILDS: u8 = 0;
/// The builder is being executed.
pub static mut BUILDING: bool = false;
/// What the builder is going to produce.
pub static mut RES: i32 = 0;
/// If the builder is to fail, with what code.
pub static mut FAIL: Option<i32> = None;
/// Check the abstract value inside of the builder. Off when the ghost value isn't tracked.
pub static mut TRACK: bool = true;

pub fn g() -> Option<i32> {
    unsafe { G }
}
pub fn set_g(v: Option<i32>) {
    unsafe { G = v }
}
pub fn builds() -> u8 {
    unsafe { BUILDS }
}
pub fn res() -> i32 {
    unsafe { RES }
}
pub fn set_res(v: i32) {
    unsafe { RES = v }
}
pub fn fail() -> Option<i32> {
    unsafe { FAIL }
}
pub fn set_fail(v: Option<i32>) {
    unsafe { FAIL = v }
}
pub fn track(on: bool) {
    unsafe { TRACK = on }
}

pub fn tracked() -> bool {
    unsafe { TRACK }
}

/// Contract of the builder's call site: `requires` the field is unset and no other build is in progress.
pub fn build_begin() {
    unsafe {
        if TRACK {
            assert!(!BUILDING, "lazy builder runs while another build of the same field is in progress");
            assert!(G.is_none(), "lazy builder runs while the field has a value");
        }
        BUILDING = true;
    }
    interfere(Pt::Callback);
}
/// ... and nobody has been able to set the field while the builder was running.
pub fn build_end() -> i32 {
    unsafe {
        if TRACK {
            assert!(G.is_none(), "a value was stored while the lazy builder was running");
        }
        BUILDING = false;
        BUILDS += 1;
        G = Some(RES);
        RES
    }
}
pub fn build() -> i32 {
    build_begin();
    build_end()
}
/// Same for fallible builders.
pub fn try_build() -> Result<i32, MyErr> {
    build_begin();
    unsafe {
        if let Some(e) = FAIL {
            BUILDING = false;
            BUILDS += 1;
            return Err(MyErr(e));
        }
    }
    Ok(build_end())
}

#[derive(Debug, Clone, PartialEq)]
pub struct MyErr(pub i32);

/// Becomes ready upon the second poll.
pub struct YieldOnce(pub bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            self.0 = false;
            Poll::Pending
        }
        else {
            Poll::Ready(())
        }
    }
}

/// Poll a future once
pub fn poll1<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    f.poll(&mut cx)
}

/// Run a future on behalf of us. It's allowed to be pending once because of the builder, but never because of a lock
/// since nobody can release it.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    if let Poll::Ready(v) = poll1(f.as_mut()) {
        return v;
    }
    interfere(Pt::Callback);
    match poll1(f.as_mut()) {
        Poll::Ready(v) => v,
        Poll::Pending => {
            fxghost::blocked();
            panic!("self-deadlock: the future never completes")
        }
    }
}

/// Run a future that must not wait for anything.
pub fn run_now<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    match poll1(f.as_mut()) {
        Poll::Ready(v) => v,
        Poll::Pending => {
            fxghost::blocked();
            panic!("self-deadlock: the future never completes")
        }
    }
}

/// A value of a type which is neither `Copy` nor trivial to drop.
#[derive(Debug, PartialEq)]
pub struct Tok(pub i32);
static mut CLONES: u32 = 0;
static mut DROPS: u32 = 0;
pub fn clones() -> u32 {
    unsafe { CLONES }
}
pub fn drops() -> u32 {
    unsafe { DROPS }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        unsafe { CLONES += 1 }
        Tok(self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { DROPS += 1 }
    }
}
impl Default for Tok {
    fn default() -> Self {
        Tok(0)
    }
}
impl From<i32> for Tok {
    fn from(v: i32) -> Self {
        Tok(v)
    }
}
/// What is inside, the token isn't considered dropped.
pub fn untok(t: Tok) -> i32 {
    let v = t.0;
    std::mem::forget(t);
    v
}
/// Panics: lazy builders that must not be called.
pub fn must_not_build<T>() -> T {
    panic!("the lazy builder is called")
}
