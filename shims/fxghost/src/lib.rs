//! Ghost state shared by the contract shims of the dependencies and the verification harnesses.
//!
//! The harnesses run in one real thread.  Thread `0` is "us" (the function whose contract is being checked); thread `1`
//! is the environment (all the other threads of the program).  At every point where another thread can run between two
//! steps of ours — right before a lock is taken, right after it is released, inside a user callback — the shims call
//! [`interfere`], which runs the operation the harness has installed as the environment's step.
//!
//! An environment step which must wait for a lock we hold can't take place at that point: the execution is discarded by
//! assuming `false`.  If it is *us* who must wait for a lock then nobody can ever release it (environment's steps are
//! complete operations), hence it is a self-deadlock and is reported as a failure.

/// Where the interference takes place.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pt {
    /// We are about to take a lock.
    Acquire,
    /// We have just released a lock.
    Release,
    /// We are inside of a user-supplied callback.
    Callback,
}

fn nop(_: Pt) {}

static mut ENV: fn(Pt) = nop;
static mut TID: usize = 0;

/// Installs the environment's step.
pub fn install(env: fn(Pt)) {
    unsafe { ENV = env }
}

/// Uninstalls the environment's step.
pub fn quiesce() {
    unsafe { ENV = nop }
}

/// Run the environment's step, unless we're the environment.
pub fn interfere(pt: Pt) {
    unsafe {
        if TID == 0 {
            TID = 1;
            ENV(pt);
            TID = 0;
        }
    }
}

/// Current thread.
pub fn tid() -> usize {
    unsafe { TID }
}

/// Run the code on behalf of the environment.
pub fn as_env<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let saved = TID;
        TID = 1;
        let r = f();
        TID = saved;
        r
    }
}

/// The current thread can't proceed.
pub fn blocked() {
    unsafe {
        if TID == 0 {
            panic!("self-deadlock: waiting for a lock that nobody is going to release")
        }
        else {
            #[cfg(kani)]
            kani::assume(false);
            #[cfg(not(kani))]
            panic!("environment step is blocked")
        }
    }
}
