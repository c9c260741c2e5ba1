//! Lazy fields of plain structs.
use crate::common::*;
use crate::seq::Seq;
use fieldx::fxstruct;

#[fxstruct]
pub struct Explicit {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
impl Explicit {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct(lazy, get(copy), get_mut, set, clearer, predicate)]
pub struct Inherited {
    v: i32,
    #[fieldx(lazy(off), optional(off), clearer(off), predicate(off), get(copy), set)]
    other: i32,
}
impl Inherited {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct]
pub struct Cloned {
    #[fieldx(lazy("compose"), get(clone), get_mut, set, clearer("reset"), predicate("ready"))]
    v: i32,
}
impl Cloned {
    fn compose(&self) -> i32 {
        build()
    }
}

/// Lazy in a struct which isn't lazy, and plain in a sync one
#[fxstruct(sync)]
pub struct PlainInSync {
    #[fieldx(mode(plain), lazy, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: i32,
}
impl PlainInSync {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct]
pub struct WithDefault {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate, default(42))]
    v: i32,
}
impl WithDefault {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct(builder)]
pub struct Built {
    #[fieldx(lazy, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: i32,
}
impl Built {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct]
pub struct Generic<T: Copy + Default>
where
    T: Into<i32>,
{
    #[fieldx(lazy, get, get_mut, set, clearer, predicate)]
    v: i32,
    #[fieldx(get(copy), set)]
    other: T,
}
impl<T: Copy + Default + Into<i32>> Generic<T> {
    fn build_v(&self) -> i32 {
        build()
    }
}

macro_rules! plain {
    ($t:ty, $make:expr, $init:expr, |$s:ident| $read:expr, $clear:ident, $has:ident $(, |$f:ident| $frame:expr, $set_frame:ident)?) => {
        impl Seq for $t {
            const LAZY: bool = true;
            fn make() -> Self {
                $make
            }
            fn initial() -> Option<i32> {
                $init
            }
            fn read(&mut self) -> Option<i32> {
                let $s = &*self;
                Some($read)
            }
            fn modify(&mut self, x: i32) -> Option<i32> {
                Some(std::mem::replace(self.v_mut(), x))
            }
            fn set(&mut self, v: i32) -> Option<i32> {
                self.set_v(v)
            }
            fn clear(&mut self) -> Option<i32> {
                self.$clear()
            }
            fn has(&mut self) -> bool {
                self.$has()
            }
            $(
                fn frame(&mut self) -> Option<i32> {
                    let $f = &*self;
                    Some($frame)
                }
                fn set_frame(&mut self, v: i32) {
                    self.$set_frame(v);
                }
            )?
        }
    };
}
plain!(Explicit, Explicit::new(), None, |s| *s.v(), clear_v, has_v, |s| s.other(), set_other);
plain!(Inherited, Inherited::new(), None, |s| s.v(), clear_v, has_v, |s| s.other(), set_other);
plain!(Cloned, Cloned::new(), None, |s| s.v(), reset, ready);
plain!(PlainInSync, PlainInSync::new(), None, |s| *s.v(), clear_v, has_v, |s| s.other(), set_other);
plain!(WithDefault, WithDefault::new(), Some(42), |s| *s.v(), clear_v, has_v);
plain!(Built, Built::builder().other(1).build().unwrap(), None, |s| *s.v(), clear_v, has_v, |s| s.other(), set_other);
plain!(Generic<i32>, Generic::new(), None, |s| *s.v(), clear_v, has_v, |s| s.other(), set_other);

/// The builder has access to the rest of the struct, other lazy fields included.
#[fxstruct(lazy, set, clearer, predicate)]
pub struct Chained {
    #[fieldx(lazy(off), clearer(off), predicate(off), get(copy))]
    seed: i32,
    a: i32,
    b: i32,
}
static mut A_BUILDS: u8 = 0;
static mut B_BUILDS: u8 = 0;
impl Chained {
    fn build_a(&self) -> i32 {
        unsafe { A_BUILDS += 1 };
        self.seed().wrapping_mul(2)
    }
    fn build_b(&self) -> i32 {
        unsafe { B_BUILDS += 1 };
        self.a().wrapping_add(1)
    }
}

#[fxstruct(rc)]
pub struct Counted {
    #[fieldx(get(copy))]
    seed: i32,
    #[fieldx(lazy, predicate)]
    v: i32,
}
impl Counted {
    fn build_v(&self) -> i32 {
        assert!(!self.has_v());
        build()
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::seq_contracts;

    seq_contracts!(explicit: Explicit);
    seq_contracts!(inherited: Inherited);
    seq_contracts!(cloned: Cloned);
    seq_contracts!(plain_in_sync: PlainInSync);
    seq_contracts!(with_default: WithDefault);
    seq_contracts!(built: Built);
    seq_contracts!(generic: Generic<i32>);

    fn a_builds() -> u8 {
        unsafe { A_BUILDS }
    }
    fn b_builds() -> u8 {
        unsafe { B_BUILDS }
    }

    #[kani::proof]
    #[kani::unwind(2)]
    pub fn chained() {
        let mut s = Chained::new();
        let seed: i32 = any();
        s.set_seed(seed);
        let a: Option<i32> = any();
        if let Some(a) = a {
            s.set_a(a);
        }
        assert!(a_builds() == 0 && b_builds() == 0);
        let va = a.unwrap_or(seed.wrapping_mul(2));
        if any() {
            assert!(*s.a() == va);
            assert!(b_builds() == 0, "reading a field must not build another one");
            assert!(!s.has_b());
        }
        assert!(*s.b() == va.wrapping_add(1));
        assert!(*s.a() == va && *s.b() == va.wrapping_add(1));
        assert!(a_builds() == if a.is_some() { 0 } else { 1 });
        assert!(b_builds() == 1);
        assert!(s.has_a() && s.has_b());
        // Another life
        let seed2: i32 = any();
        s.set_seed(seed2);
        assert!(*s.b() == va.wrapping_add(1), "a built value doesn't change until it is cleared");
        s.clear_b();
        assert!(*s.b() == va.wrapping_add(1));
        assert!(b_builds() == 2 && a_builds() == if a.is_some() { 0 } else { 1 });
        s.clear_a();
        s.clear_b();
        assert!(*s.b() == seed2.wrapping_mul(2).wrapping_add(1));
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(2)]
    pub fn counted() {
        set_res(any());
        let s = Counted::new();
        assert!(!s.has_v());
        assert!(builds() == 0);
        assert!(*s.v() == res());
        assert!(*s.v() == res());
        assert!(builds() == 1 && s.has_v());
        cover!(true, "reachable");
    }
}
