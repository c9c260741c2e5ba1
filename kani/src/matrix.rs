//! What generated declarations need (see tools/gen_matrix.py).
use crate::common::*;

/// A value of a field
pub trait Num {
    fn of(x: i32) -> Self;
    fn get(&self) -> i32;
}
impl Num for i32 {
    fn of(x: i32) -> Self {
        x
    }
    fn get(&self) -> i32 {
        *self
    }
}
pub fn num<T: Num>(t: &T) -> i32 {
    t.get()
}

/// Both `Copy` and `Clone`, but it's known when it's been cloned
#[derive(Copy, Debug, PartialEq, Default)]
pub struct Val(pub i32);
static mut VAL_CLONES: u32 = 0;
pub fn val_clones() -> u32 {
    unsafe { VAL_CLONES }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        unsafe { VAL_CLONES += 1 }
        Val(self.0)
    }
}
impl Num for Val {
    fn of(x: i32) -> Self {
        Val(x)
    }
    fn get(&self) -> i32 {
        self.0
    }
}

/// Must be converted
pub struct Conv(pub i32);
impl From<Conv> for i32 {
    fn from(c: Conv) -> i32 {
        c.0
    }
}
impl From<Conv> for Val {
    fn from(c: Conv) -> Val {
        Val(c.0)
    }
}
/// It's of the type that the context requires, therefore the context must require one: can't be given to where a
/// conversion is done.
pub fn exactly<T: Num>(x: i32) -> T {
    T::of(x)
}

static mut INIT: [i32; 8] = [0; 8];
pub fn init(i: usize) -> i32 {
    unsafe { INIT[i] }
}
pub fn vinit(i: usize) -> Val {
    Val(init(i))
}
/// What lazy builders make
pub fn made(i: usize) -> i32 {
    res() ^ i as i32
}
#[cfg(kani)]
pub fn start() {
    track(false);
    set_res(any());
    unsafe { INIT = any() }
}

pub type Rd<'a, T> = parking_lot::RwLockReadGuard<'a, T>;
pub type Wr<'a, T> = parking_lot::RwLockWriteGuard<'a, T>;
pub type MRd<'a, T> = parking_lot::MappedRwLockReadGuard<'a, T>;
pub type MWr<'a, T> = parking_lot::MappedRwLockWriteGuard<'a, T>;
pub type ARd<'a, T> = tokio::sync::RwLockReadGuard<'a, T>;
pub type AWr<'a, T> = tokio::sync::RwLockWriteGuard<'a, T>;
pub type AMWr<'a, T> = tokio::sync::RwLockMappedWriteGuard<'a, T>;

pub struct Absence;
/// The type has none of these methods (or they aren't accessible here). Doesn't compile otherwise.
#[macro_export]
macro_rules! lacks {
    ($t:ty: $( $m:ident )+) => {
        const _: () = {
            use $crate::matrix::Absence;
            trait Lacks {
                $(
                    fn $m(&self) -> Absence {
                        Absence
                    }
                )+
            }
            impl Lacks for $t {}
            fn check() {
                $( let _: fn(&$t) -> Absence = <$t>::$m; )+
            }
        };
    };
}
