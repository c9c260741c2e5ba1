//! Guards: who excludes whom, and everything is released.
use crate::common::*;
use fieldx::fxstruct;

#[fxstruct(sync)]
pub struct Lazy {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Lazy {
    fn build_v(&self) -> i32 {
        build()
    }
}
#[fxstruct(sync)]
pub struct Fallible {
    #[fieldx(lazy, fallible(error(MyErr)), clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl Fallible {
    fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}
#[fxstruct(sync)]
pub struct Opt {
    #[fieldx(optional, get, get_mut, set, reader, writer, clearer, predicate)]
    v: i32,
}
#[fxstruct(sync)]
pub struct Locked {
    #[fieldx(lock, get, get_mut, set, reader, writer)]
    v: i32,
}
#[fxstruct(r#async)]
pub struct AsyncLazy {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl AsyncLazy {
    async fn build_v(&self) -> i32 {
        build()
    }
}
#[fxstruct(r#async)]
pub struct AsyncFallible {
    #[fieldx(lazy, fallible(error(MyErr)), clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
}
impl AsyncFallible {
    async fn build_v(&self) -> Result<i32, MyErr> {
        try_build()
    }
}
#[fxstruct(r#async)]
pub struct AsyncOpt {
    #[fieldx(optional, get, set, reader, writer, clearer, predicate)]
    v: i32,
}
#[fxstruct(r#async)]
pub struct AsyncLocked {
    #[fieldx(lock, get, set, reader, writer)]
    v: i32,
}

pub trait Guards: Sized {
    fn make() -> Self;
    fn set(&self, x: i32);
    /// The operation number `n` which has to be given shared access. The callback is executed while the access lasts.
    fn shared(&self, n: u8, f: impl FnOnce());
    /// Same, the access has to be exclusive.
    fn exclusive(&self, n: u8, f: impl FnOnce());
}

macro_rules! guards {
    ($( $t:ty, $run:ident, |$s:ident| [$( $sh:expr ),+] [$( $ex:expr ),+]; )+) => {
        $(
            impl Guards for $t {
                fn make() -> Self {
                    <$t>::new()
                }
                fn set(&self, x: i32) {
                    $run(self.set_v(x));
                }
                fn shared(&self, n: u8, f: impl FnOnce()) {
                    let $s = self;
                    let mut i = 0;
                    $(
                        if n == i {
                            let guard = $run($sh);
                            f();
                            drop(guard);
                            return;
                        }
                        i += 1;
                    )+
                    unreachable!()
                }
                fn exclusive(&self, n: u8, f: impl FnOnce()) {
                    let $s = self;
                    let mut i = 0;
                    $(
                        if n == i {
                            let guard = $run($ex);
                            f();
                            drop(guard);
                            return;
                        }
                        i += 1;
                    )+
                    unreachable!()
                }
            }
        )+
    };
}
fn id<T>(v: T) -> T {
    v
}
guards! {
    Lazy, id, |s| [s.v(), s.read_v()] [s.v_mut(), s.write_v(), s.set_v(any()), s.clear_v()];
    Fallible, id, |s| [s.v(), s.read_v()] [s.v_mut(), s.write_v(), s.set_v(any()), s.clear_v()];
    Opt, id, |s| [s.v(), s.read_v(), s.has_v()] [s.v_mut(), s.write_v(), s.set_v(any()), s.clear_v()];
    Locked, id, |s| [s.v(), s.read_v()] [s.v_mut(), s.write_v(), s.set_v(any())];
    AsyncLazy, run_now, |s| [s.v(), s.read_v()] [s.v_mut(), s.write_v(), s.set_v(any()), s.clear_v()];
    AsyncFallible, run_now, |s| [s.v(), s.read_v()] [s.v_mut(), s.write_v(), s.set_v(any()), s.clear_v()];
    AsyncOpt, run_now, |s| [s.v(), s.read_v(), s.has_v()] [s.write_v(), s.set_v(any()), s.clear_v()];
    AsyncLocked, run_now, |s| [s.v(), s.read_v()] [s.write_v(), s.set_v(any())];
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    fn start<T: Guards>(set: bool) -> ManuallyDrop<T> {
        let s = ManuallyDrop::new(T::make());
        set_res(any());
        track(false);
        if set {
            s.set(any());
        }
        s
    }

    /// A holder of a shared guard `a` may get another one `b`, in the same thread, and then everything is released.
    fn both<T: Guards>(set: bool, a: u8, b: u8) {
        let s = start::<T>(set);
        s.shared(a, || s.shared(b, || cover!(true, "two guards")));
        s.set(any());
    }
    /// ... and nobody else can get exclusive access
    fn pinned<T: Guards>(set: bool, a: u8, x: u8) {
        let s = start::<T>(set);
        s.shared(a, || {
            cover!(true, "the guard is obtained");
            as_env(|| {
                s.exclusive(x, || panic!("exclusive access was given while a read guard is alive"));
            })
        });
    }
    /// A holder of an exclusive guard `a` excludes ...
    fn excludes_exclusive<T: Guards>(set: bool, a: u8, x: u8) {
        let s = start::<T>(set);
        s.exclusive(a, || {
            cover!(true, "the guard is obtained");
            as_env(|| {
                s.exclusive(x, || panic!("exclusive access was given to two guards"));
            })
        });
    }
    fn excludes_shared<T: Guards>(set: bool, a: u8, x: u8) {
        let s = start::<T>(set);
        s.exclusive(a, || {
            cover!(true, "the guard is obtained");
            as_env(|| {
                s.shared(x, || panic!("read access was given while an exclusive guard is alive"));
            })
        });
    }
    /// Everything is released after an exclusive operation
    fn released<T: Guards>(set: bool, x: u8) {
        let s = start::<T>(set);
        s.exclusive(x, || ());
        s.exclusive(0, || ());
        s.shared(0, || ());
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $m:ident: $t:ty, [$( $set:literal $st:ident ),+], shared $sh:tt, holders $hs:tt, guards $gx:tt, exclusive $ex:tt; )+) => {
            $(
                pub mod $m {
                    use super::*;
                    $(
                        pub mod $st {
                            use super::*;
                            contracts!(@pairs both: $t, $set, $hs, $sh);
                            contracts!(@pairs pinned: $t, $set, $hs, $ex);
                            contracts!(@pairs excludes_exclusive: $t, $set, $gx, $ex);
                            contracts!(@pairs excludes_shared: $t, $set, $gx, $sh);
                            contracts!(@singles released: $t, $set, $ex);
                        }
                    )+
                }
            )+
        };
        (@pairs $f:ident: $t:ty, $set:literal, [$( $a:literal $an:ident ),+], $bs:tt) => {
            pub mod $f {
                use super::*;
                $( contracts!(@row $f: $t, $set, $a $an, $bs); )+
            }
        };
        (@row $f:ident: $t:ty, $set:literal, $a:literal $an:ident, [$( $b:literal $bn:ident ),+]) => {
            pub mod $an {
                use super::*;
                $(
                    #[kani::proof]
                    #[kani::unwind(2)]
                    pub fn $bn() {
                        crate::c21::proofs::$f::<$t>($set, $a, $b)
                    }
                )+
            }
        };
        (@singles $f:ident: $t:ty, $set:literal, [$( $a:literal $an:ident ),+]) => {
            pub mod $f {
                use super::*;
                $(
                    #[kani::proof]
                    #[kani::unwind(2)]
                    pub fn $an() {
                        crate::c21::proofs::$f::<$t>($set, $a)
                    }
                )+
            }
        };
    }
    contracts! {
        lazy: Lazy, [false unset, true set], shared [0 get, 1 reader], holders [0 get, 1 reader], guards [0 get_mut, 1 writer],
            exclusive [0 get_mut, 1 writer, 2 set, 3 clear];
        opt: Opt, [false unset, true set], shared [0 get, 1 reader, 2 has], holders [0 get, 1 reader], guards [0 get_mut, 1 writer],
            exclusive [0 get_mut, 1 writer, 2 set, 3 clear];
        locked: Locked, [true set], shared [0 get, 1 reader], holders [0 get, 1 reader], guards [0 get_mut, 1 writer],
            exclusive [0 get_mut, 1 writer, 2 set];
        async_lazy: AsyncLazy, [true set], shared [0 get, 1 reader], holders [0 get, 1 reader], guards [0 get_mut, 1 writer],
            exclusive [0 get_mut, 1 writer, 2 set, 3 clear];
        async_opt: AsyncOpt, [true set], shared [0 get, 1 reader, 2 has], holders [0 get, 1 reader], guards [0 writer],
            exclusive [0 writer, 1 set, 2 clear];
        async_locked: AsyncLocked, [true set], shared [0 get, 1 reader], holders [0 get, 1 reader], guards [0 writer], exclusive [0 writer, 1 set];
    }

    /// A failed builder leaves no lock behind
    macro_rules! failed {
        ($( $name:ident: $t:ty, $a:ident $n:literal, $op:ident $k:literal; )+) => {
            $(
                #[kani::proof]
                #[kani::unwind(2)]
                pub fn $name() {
                    let s = start::<$t>(false);
                    set_fail(Some(any()));
                    s.$a($n, || ());
                    assert!(builds() == 1);
                    s.$op($k, || ());
                    cover!(true, "reachable");
                }
            )+
        };
    }
    failed! {
        failed_read_set: Fallible, shared 0, exclusive 2;
        failed_reader_clear: Fallible, shared 1, exclusive 3;
        failed_mut_write: Fallible, exclusive 0, exclusive 1;
        failed_mut_read: Fallible, exclusive 0, shared 0;
        async_failed_read_set: AsyncFallible, shared 0, exclusive 2;
        async_failed_reader_clear: AsyncFallible, shared 1, exclusive 3;
        async_failed_mut_write: AsyncFallible, exclusive 0, exclusive 1;
    }
}
