// Made by tools/gen_matrix.py
use crate::{common::*, lacks, matrix::*};
use fieldx::{fxstruct, Ref, RefMut};

// ---- helper_plain_ordinary_get

#[fxstruct(mode(plain))]
pub struct HPlainGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get)]
pub struct HPlainGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get(off))]
pub struct HPlainGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_ordinary_get_mut

#[fxstruct(mode(plain), get)]
pub struct HPlainGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, get_mut)]
pub struct HPlainGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, get_mut(off))]
pub struct HPlainGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_ordinary_set

#[fxstruct(mode(plain), get)]
pub struct HPlainSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, set)]
pub struct HPlainSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, set(off))]
pub struct HPlainSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_plain_ordinary_clearer

#[fxstruct(mode(plain), get)]
pub struct HPlainClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, clearer)]
pub struct HPlainClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, clearer(off))]
pub struct HPlainClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_ordinary_predicate

#[fxstruct(mode(plain), get)]
pub struct HPlainPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, predicate)]
pub struct HPlainPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, predicate(off))]
pub struct HPlainPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_optional_get

#[fxstruct(mode(plain), optional)]
pub struct HPlainOptionalGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get)]
pub struct HPlainOptionalGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get(off))]
pub struct HPlainOptionalGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_optional_get_mut

#[fxstruct(mode(plain), optional, get)]
pub struct HPlainOptionalGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, get_mut)]
pub struct HPlainOptionalGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, get_mut(off))]
pub struct HPlainOptionalGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_optional_set

#[fxstruct(mode(plain), optional, get)]
pub struct HPlainOptionalSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, set)]
pub struct HPlainOptionalSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, set(off))]
pub struct HPlainOptionalSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_plain_optional_clearer

#[fxstruct(mode(plain), optional, get)]
pub struct HPlainOptionalClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, clearer)]
pub struct HPlainOptionalClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, clearer(off))]
pub struct HPlainOptionalClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_optional_predicate

#[fxstruct(mode(plain), optional, get)]
pub struct HPlainOptionalPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, predicate)]
pub struct HPlainOptionalPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), optional, get, predicate(off))]
pub struct HPlainOptionalPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainOptionalPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_lazy_get

#[fxstruct(mode(plain), lazy)]
pub struct HPlainLazyGet0 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HPlainLazyGet0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGet0: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get)]
pub struct HPlainLazyGet1 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HPlainLazyGet1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGet1: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get(off))]
pub struct HPlainLazyGet2 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HPlainLazyGet2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGet2: a a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_plain_lazy_get_mut

#[fxstruct(mode(plain), lazy, get)]
pub struct HPlainLazyGetMut0 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HPlainLazyGetMut0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGetMut0: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, get_mut)]
pub struct HPlainLazyGetMut1 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HPlainLazyGetMut1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGetMut1: clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, get_mut(off))]
pub struct HPlainLazyGetMut2 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HPlainLazyGetMut2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyGetMut2: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_plain_lazy_set

#[fxstruct(mode(plain), lazy, get)]
pub struct HPlainLazySet0 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HPlainLazySet0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazySet0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, set)]
pub struct HPlainLazySet1 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HPlainLazySet1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazySet1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, set(off))]
pub struct HPlainLazySet2 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HPlainLazySet2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazySet2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

// ---- helper_plain_lazy_clearer

#[fxstruct(mode(plain), lazy, get)]
pub struct HPlainLazyClearer0 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HPlainLazyClearer0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyClearer0: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, clearer)]
pub struct HPlainLazyClearer1 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HPlainLazyClearer1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyClearer1: a_mut c_mut clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, clearer(off))]
pub struct HPlainLazyClearer2 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HPlainLazyClearer2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyClearer2: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_plain_lazy_predicate

#[fxstruct(mode(plain), lazy, get)]
pub struct HPlainLazyPredicate0 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HPlainLazyPredicate0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyPredicate0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, predicate)]
pub struct HPlainLazyPredicate1 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HPlainLazyPredicate1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyPredicate1: a_mut c_mut clear_a clear_c clear_d d_mut has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(mode(plain), lazy, get, predicate(off))]
pub struct HPlainLazyPredicate2 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HPlainLazyPredicate2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HPlainLazyPredicate2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_plain_inner_mut_get

#[fxstruct(inner_mut)]
pub struct HPlainInnerMutGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get)]
pub struct HPlainInnerMutGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get(off))]
pub struct HPlainInnerMutGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_inner_mut_get_mut

#[fxstruct(inner_mut, get)]
pub struct HPlainInnerMutGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, get_mut)]
pub struct HPlainInnerMutGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, get_mut(off))]
pub struct HPlainInnerMutGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_inner_mut_set

#[fxstruct(inner_mut, get)]
pub struct HPlainInnerMutSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, set)]
pub struct HPlainInnerMutSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, set(off))]
pub struct HPlainInnerMutSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_plain_inner_mut_clearer

#[fxstruct(inner_mut, get)]
pub struct HPlainInnerMutClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, clearer)]
pub struct HPlainInnerMutClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, clearer(off))]
pub struct HPlainInnerMutClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_plain_inner_mut_predicate

#[fxstruct(inner_mut, get)]
pub struct HPlainInnerMutPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, predicate)]
pub struct HPlainInnerMutPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(inner_mut, get, predicate(off))]
pub struct HPlainInnerMutPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HPlainInnerMutPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_get

#[fxstruct(sync)]
pub struct HSyncGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get)]
pub struct HSyncGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get(off))]
pub struct HSyncGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_get_mut

#[fxstruct(sync, get)]
pub struct HSyncGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, get_mut)]
pub struct HSyncGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, get_mut(off))]
pub struct HSyncGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_set

#[fxstruct(sync, get)]
pub struct HSyncSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, set)]
pub struct HSyncSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, set(off))]
pub struct HSyncSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_clearer

#[fxstruct(sync, get)]
pub struct HSyncClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, clearer)]
pub struct HSyncClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, clearer(off))]
pub struct HSyncClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_predicate

#[fxstruct(sync, get)]
pub struct HSyncPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, predicate)]
pub struct HSyncPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, predicate(off))]
pub struct HSyncPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_reader

#[fxstruct(sync, get)]
pub struct HSyncReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, reader)]
pub struct HSyncReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, reader(off))]
pub struct HSyncReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_ordinary_writer

#[fxstruct(sync, get)]
pub struct HSyncWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(sync, get, writer)]
pub struct HSyncWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(sync, get, writer(off))]
pub struct HSyncWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

// ---- helper_sync_optional_get

#[fxstruct(sync, optional)]
pub struct HSyncOptionalGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get(off))]
pub struct HSyncOptionalGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_get_mut

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, get_mut)]
pub struct HSyncOptionalGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, get_mut(off))]
pub struct HSyncOptionalGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_set

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set)]
pub struct HSyncOptionalSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set(off))]
pub struct HSyncOptionalSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_clearer

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, clearer)]
pub struct HSyncOptionalClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, clearer(off))]
pub struct HSyncOptionalClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_predicate

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, predicate)]
pub struct HSyncOptionalPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, predicate(off))]
pub struct HSyncOptionalPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_reader

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, reader)]
pub struct HSyncOptionalReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, reader(off))]
pub struct HSyncOptionalReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_optional_writer

#[fxstruct(sync, optional, get)]
pub struct HSyncOptionalWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(sync, optional, get, writer)]
pub struct HSyncOptionalWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(sync, optional, get, writer(off))]
pub struct HSyncOptionalWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncOptionalWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

// ---- helper_sync_lazy_get

#[fxstruct(sync, lazy)]
pub struct HSyncLazyGet0 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HSyncLazyGet0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGet0: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyGet1 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HSyncLazyGet1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGet1: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get(off))]
pub struct HSyncLazyGet2 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HSyncLazyGet2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGet2: a a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_sync_lazy_get_mut

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyGetMut0 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HSyncLazyGetMut0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGetMut0: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, get_mut)]
pub struct HSyncLazyGetMut1 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HSyncLazyGetMut1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGetMut1: clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, get_mut(off))]
pub struct HSyncLazyGetMut2 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HSyncLazyGetMut2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyGetMut2: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_sync_lazy_set

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazySet0 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HSyncLazySet0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazySet0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, set)]
pub struct HSyncLazySet1 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HSyncLazySet1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazySet1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, set(off))]
pub struct HSyncLazySet2 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HSyncLazySet2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazySet2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

// ---- helper_sync_lazy_clearer

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyClearer0 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HSyncLazyClearer0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyClearer0: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, clearer)]
pub struct HSyncLazyClearer1 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HSyncLazyClearer1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyClearer1: a_mut c_mut clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, clearer(off))]
pub struct HSyncLazyClearer2 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HSyncLazyClearer2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyClearer2: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_sync_lazy_predicate

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyPredicate0 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HSyncLazyPredicate0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyPredicate0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, predicate)]
pub struct HSyncLazyPredicate1 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HSyncLazyPredicate1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyPredicate1: a_mut c_mut clear_a clear_c clear_d d_mut has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, predicate(off))]
pub struct HSyncLazyPredicate2 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HSyncLazyPredicate2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyPredicate2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_sync_lazy_reader

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyReader0 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HSyncLazyReader0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyReader0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, reader)]
pub struct HSyncLazyReader1 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HSyncLazyReader1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyReader1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(sync, lazy, get, reader(off))]
pub struct HSyncLazyReader2 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HSyncLazyReader2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyReader2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_sync_lazy_writer

#[fxstruct(sync, lazy, get)]
pub struct HSyncLazyWriter0 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HSyncLazyWriter0 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyWriter0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_d }

#[fxstruct(sync, lazy, get, writer)]
pub struct HSyncLazyWriter1 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HSyncLazyWriter1 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyWriter1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_d }

#[fxstruct(sync, lazy, get, writer(off))]
pub struct HSyncLazyWriter2 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HSyncLazyWriter2 {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HSyncLazyWriter2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_d }

// ---- helper_sync_lock_get

#[fxstruct(sync, lock)]
pub struct HSyncLockGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get)]
pub struct HSyncLockGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get(off))]
pub struct HSyncLockGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_get_mut

#[fxstruct(sync, lock, get)]
pub struct HSyncLockGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, get_mut)]
pub struct HSyncLockGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, get_mut(off))]
pub struct HSyncLockGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_set

#[fxstruct(sync, lock, get)]
pub struct HSyncLockSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set)]
pub struct HSyncLockSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set(off))]
pub struct HSyncLockSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_clearer

#[fxstruct(sync, lock, get)]
pub struct HSyncLockClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, clearer)]
pub struct HSyncLockClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, clearer(off))]
pub struct HSyncLockClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_predicate

#[fxstruct(sync, lock, get)]
pub struct HSyncLockPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, predicate)]
pub struct HSyncLockPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, predicate(off))]
pub struct HSyncLockPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_reader

#[fxstruct(sync, lock, get)]
pub struct HSyncLockReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, reader)]
pub struct HSyncLockReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, reader(off))]
pub struct HSyncLockReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_sync_lock_writer

#[fxstruct(sync, lock, get)]
pub struct HSyncLockWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(sync, lock, get, writer)]
pub struct HSyncLockWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(sync, lock, get, writer(off))]
pub struct HSyncLockWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HSyncLockWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

// ---- helper_async_ordinary_get

#[fxstruct(r#async)]
pub struct HAsyncGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get)]
pub struct HAsyncGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get(off))]
pub struct HAsyncGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_get_mut

#[fxstruct(r#async, get)]
pub struct HAsyncGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, get_mut)]
pub struct HAsyncGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, get_mut(off))]
pub struct HAsyncGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_set

#[fxstruct(r#async, get)]
pub struct HAsyncSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, set)]
pub struct HAsyncSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, set(off))]
pub struct HAsyncSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_clearer

#[fxstruct(r#async, get)]
pub struct HAsyncClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, clearer)]
pub struct HAsyncClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, clearer(off))]
pub struct HAsyncClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_predicate

#[fxstruct(r#async, get)]
pub struct HAsyncPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, predicate)]
pub struct HAsyncPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, predicate(off))]
pub struct HAsyncPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_reader

#[fxstruct(r#async, get)]
pub struct HAsyncReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, reader)]
pub struct HAsyncReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, get, reader(off))]
pub struct HAsyncReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_ordinary_writer

#[fxstruct(r#async, get)]
pub struct HAsyncWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(r#async, get, writer)]
pub struct HAsyncWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(r#async, get, writer(off))]
pub struct HAsyncWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

// ---- helper_async_optional_get

#[fxstruct(r#async, optional)]
pub struct HAsyncOptionalGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get(off))]
pub struct HAsyncOptionalGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_optional_get_mut

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, get_mut)]
pub struct HAsyncOptionalGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, get_mut(off))]
pub struct HAsyncOptionalGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_optional_set

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, set)]
pub struct HAsyncOptionalSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, set(off))]
pub struct HAsyncOptionalSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_async_optional_clearer

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, clearer)]
pub struct HAsyncOptionalClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, clearer(off))]
pub struct HAsyncOptionalClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_optional_predicate

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, predicate)]
pub struct HAsyncOptionalPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, predicate(off))]
pub struct HAsyncOptionalPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_optional_reader

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, reader)]
pub struct HAsyncOptionalReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, optional, get, reader(off))]
pub struct HAsyncOptionalReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_optional_writer

#[fxstruct(r#async, optional, get)]
pub struct HAsyncOptionalWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(r#async, optional, get, writer)]
pub struct HAsyncOptionalWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(r#async, optional, get, writer(off))]
pub struct HAsyncOptionalWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncOptionalWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

// ---- helper_async_lazy_get

#[fxstruct(r#async, lazy)]
pub struct HAsyncLazyGet0 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HAsyncLazyGet0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGet0: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyGet1 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HAsyncLazyGet1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGet1: a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get(off))]
pub struct HAsyncLazyGet2 {
    a: i32,
    #[fieldx(get)]
    c: i32,
    #[fieldx(get(off))]
    d: i32,
}
impl HAsyncLazyGet2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGet2: a a_mut c_mut clear_a clear_c clear_d d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_async_lazy_get_mut

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyGetMut0 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HAsyncLazyGetMut0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGetMut0: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, get_mut)]
pub struct HAsyncLazyGetMut1 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HAsyncLazyGetMut1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGetMut1: clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, get_mut(off))]
pub struct HAsyncLazyGetMut2 {
    a: i32,
    #[fieldx(get_mut)]
    c: i32,
    #[fieldx(get_mut(off))]
    d: i32,
}
impl HAsyncLazyGetMut2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyGetMut2: a_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_async_lazy_set

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazySet0 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HAsyncLazySet0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazySet0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, set)]
pub struct HAsyncLazySet1 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HAsyncLazySet1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazySet1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, set(off))]
pub struct HAsyncLazySet2 {
    a: i32,
    #[fieldx(set)]
    c: i32,
    #[fieldx(set(off))]
    d: i32,
}
impl HAsyncLazySet2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazySet2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_d write_a write_c write_d }

// ---- helper_async_lazy_clearer

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyClearer0 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HAsyncLazyClearer0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyClearer0: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, clearer)]
pub struct HAsyncLazyClearer1 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HAsyncLazyClearer1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyClearer1: a_mut c_mut clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, clearer(off))]
pub struct HAsyncLazyClearer2 {
    a: i32,
    #[fieldx(clearer)]
    c: i32,
    #[fieldx(clearer(off))]
    d: i32,
}
impl HAsyncLazyClearer2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyClearer2: a_mut c_mut clear_a clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_async_lazy_predicate

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyPredicate0 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HAsyncLazyPredicate0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyPredicate0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, predicate)]
pub struct HAsyncLazyPredicate1 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HAsyncLazyPredicate1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyPredicate1: a_mut c_mut clear_a clear_c clear_d d_mut has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, predicate(off))]
pub struct HAsyncLazyPredicate2 {
    a: i32,
    #[fieldx(predicate)]
    c: i32,
    #[fieldx(predicate(off))]
    d: i32,
}
impl HAsyncLazyPredicate2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyPredicate2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_d read_a read_c read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_async_lazy_reader

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyReader0 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HAsyncLazyReader0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyReader0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, reader)]
pub struct HAsyncLazyReader1 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HAsyncLazyReader1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyReader1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_d set_a set_c set_d write_a write_c write_d }

#[fxstruct(r#async, lazy, get, reader(off))]
pub struct HAsyncLazyReader2 {
    a: i32,
    #[fieldx(reader)]
    c: i32,
    #[fieldx(reader(off))]
    d: i32,
}
impl HAsyncLazyReader2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyReader2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_d set_a set_c set_d write_a write_c write_d }

// ---- helper_async_lazy_writer

#[fxstruct(r#async, lazy, get)]
pub struct HAsyncLazyWriter0 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HAsyncLazyWriter0 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyWriter0: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_d }

#[fxstruct(r#async, lazy, get, writer)]
pub struct HAsyncLazyWriter1 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HAsyncLazyWriter1 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyWriter1: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_d }

#[fxstruct(r#async, lazy, get, writer(off))]
pub struct HAsyncLazyWriter2 {
    a: i32,
    #[fieldx(writer)]
    c: i32,
    #[fieldx(writer(off))]
    d: i32,
}
impl HAsyncLazyWriter2 {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_c(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { HAsyncLazyWriter2: a_mut c_mut clear_a clear_c clear_d d_mut has_a has_c has_d read_a read_c read_d set_a set_c set_d write_a write_d }

// ---- helper_async_lock_get

#[fxstruct(r#async, lock)]
pub struct HAsyncLockGet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGet0: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockGet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get(off))]
pub struct HAsyncLockGet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get, default(init(2)))]
    c: i32,
    #[fieldx(get(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGet2: a a_mut b b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_lock_get_mut

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockGetMut0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGetMut0: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, get_mut)]
pub struct HAsyncLockGetMut1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGetMut1: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, get_mut(off))]
pub struct HAsyncLockGetMut2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(get_mut, default(init(2)))]
    c: i32,
    #[fieldx(get_mut(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockGetMut2: a_mut b_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_lock_set

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockSet0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockSet0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set)]
pub struct HAsyncLockSet1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockSet1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set(off))]
pub struct HAsyncLockSet2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(set, default(init(2)))]
    c: i32,
    #[fieldx(set(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockSet2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_d write_a write_b write_c write_d }

// ---- helper_async_lock_clearer

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockClearer0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockClearer0: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, clearer)]
pub struct HAsyncLockClearer1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockClearer1: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, clearer(off))]
pub struct HAsyncLockClearer2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(clearer, default(init(2)))]
    c: i32,
    #[fieldx(clearer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockClearer2: a_mut b_mut c_mut clear_a clear_b clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_lock_predicate

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockPredicate0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockPredicate0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, predicate)]
pub struct HAsyncLockPredicate1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockPredicate1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, predicate(off))]
pub struct HAsyncLockPredicate2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(predicate, default(init(2)))]
    c: i32,
    #[fieldx(predicate(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockPredicate2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_lock_reader

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockReader0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockReader0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, reader)]
pub struct HAsyncLockReader1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockReader1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, reader(off))]
pub struct HAsyncLockReader2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(reader, default(init(2)))]
    c: i32,
    #[fieldx(reader(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockReader2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- helper_async_lock_writer

#[fxstruct(r#async, lock, get)]
pub struct HAsyncLockWriter0 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockWriter0: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

#[fxstruct(r#async, lock, get, writer)]
pub struct HAsyncLockWriter1 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockWriter1: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_d }

#[fxstruct(r#async, lock, get, writer(off))]
pub struct HAsyncLockWriter2 {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(writer, default(init(2)))]
    c: i32,
    #[fieldx(writer(off), default(init(3)))]
    d: i32,
}
lacks! { HAsyncLockWriter2: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_d }

/// What is too much for the solver: the names and the types only, the behaviour is up to other properties
#[cfg(kani)]
mod compiled {
    use super::*;
    use std::mem::ManuallyDrop;

    fn helper_async_lazy_get() {
        {
            fn see0(s: &mut HAsyncLazyGet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyGet0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGet0, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyGet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyGet1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGet1, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyGet2, v: &mut [Option<i32>; 3]) {
            }
            fn see1(s: &mut HAsyncLazyGet2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGet2, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_get_mut() {
        {
            fn see0(s: &mut HAsyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_set() {
        {
            fn see0(s: &mut HAsyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazySet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazySet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazySet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_clearer() {
        {
            fn see0(s: &mut HAsyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyClearer0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyClearer1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyClearer2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_predicate() {
        {
            fn see0(s: &mut HAsyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_reader() {
        {
            fn see0(s: &mut HAsyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyReader0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyReader1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyReader2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
    }
    fn helper_async_lazy_writer() {
        {
            fn see0(s: &mut HAsyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyWriter0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_c()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyWriter1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_a()).store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_c()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HAsyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLazyWriter2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_c()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_ordinary_get() {
        start();
        {
            fn see(s: &mut HPlainGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_ordinary_get_mut() {
        start();
        {
            fn see(s: &mut HPlainGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_ordinary_set() {
        start();
        {
            fn see(s: &mut HPlainSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_ordinary_clearer() {
        start();
        {
            fn see(s: &mut HPlainClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_ordinary_predicate() {
        start();
        {
            fn see(s: &mut HPlainPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_optional_get() {
        start();
        {
            fn see(s: &mut HPlainOptionalGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_optional_get_mut() {
        start();
        {
            fn see(s: &mut HPlainOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_optional_set() {
        start();
        {
            fn see(s: &mut HPlainOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalSet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalSet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalSet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_optional_clearer() {
        start();
        {
            fn see(s: &mut HPlainOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalClearer0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalClearer2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_optional_predicate() {
        start();
        {
            fn see(s: &mut HPlainOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainOptionalPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_lazy_get() {
        start();
        {
            fn see(s: &mut HPlainLazyGet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyGet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyGet2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_lazy_get_mut() {
        start();
        {
            fn see(s: &mut HPlainLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_lazy_set() {
        start();
        {
            fn see(s: &mut HPlainLazySet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazySet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazySet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazySet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazySet2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazySet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_lazy_clearer() {
        start();
        {
            fn see(s: &mut HPlainLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyClearer0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyClearer1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyClearer2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_lazy_predicate() {
        start();
        {
            fn see(s: &mut HPlainLazyPredicate0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyPredicate1, v: &mut [Option<i32>; 3]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainLazyPredicate2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainLazyPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_inner_mut_get() {
        start();
        {
            fn see(s: &mut HPlainInnerMutGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_inner_mut_get_mut() {
        start();
        {
            fn see(s: &mut HPlainInnerMutGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_inner_mut_set() {
        start();
        {
            fn see(s: &mut HPlainInnerMutSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_inner_mut_clearer() {
        start();
        {
            fn see(s: &mut HPlainInnerMutClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_plain_inner_mut_predicate() {
        start();
        {
            fn see(s: &mut HPlainInnerMutPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HPlainInnerMutPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HPlainInnerMutPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_get() {
        start();
        {
            fn see(s: &mut HSyncGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_get_mut() {
        start();
        {
            fn see(s: &mut HSyncGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_set() {
        start();
        {
            fn see(s: &mut HSyncSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_clearer() {
        start();
        {
            fn see(s: &mut HSyncClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_predicate() {
        start();
        {
            fn see(s: &mut HSyncPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_reader() {
        start();
        {
            fn see(s: &mut HSyncReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncReader0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncReader1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncReader2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_ordinary_writer() {
        start();
        {
            fn see(s: &mut HSyncWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncWriter0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncWriter1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_b(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncWriter2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_get() {
        start();
        {
            fn see(s: &mut HSyncOptionalGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_get_mut() {
        start();
        {
            fn see(s: &mut HSyncOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_set() {
        start();
        {
            fn see(s: &mut HSyncOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalSet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalSet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalSet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_clearer() {
        start();
        {
            fn see(s: &mut HSyncOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalClearer0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalClearer2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_predicate() {
        start();
        {
            fn see(s: &mut HSyncOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_reader() {
        start();
        {
            fn see(s: &mut HSyncOptionalReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalReader0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalReader1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalReader2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_optional_writer() {
        start();
        {
            fn see(s: &mut HSyncOptionalWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalWriter0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_c(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalWriter1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_a(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_b(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_c(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncOptionalWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncOptionalWriter2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_c(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_get() {
        start();
        {
            fn see0(s: &mut HSyncLazyGet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyGet0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGet0, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HSyncLazyGet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyGet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyGet1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGet1, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HSyncLazyGet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyGet2, v: &mut [Option<i32>; 3]) {
            }
            fn see1(s: &mut HSyncLazyGet2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGet2, v: &mut [Option<i32>; 3]) {
            }
            let mut s = ManuallyDrop::new(HSyncLazyGet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_get_mut() {
        start();
        {
            fn see0(s: &mut HSyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGetMut0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGetMut1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyGetMut2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_set() {
        start();
        {
            fn see0(s: &mut HSyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazySet0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazySet0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazySet1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazySet1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazySet2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazySet2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_clearer() {
        start();
        {
            fn see0(s: &mut HSyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyClearer0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyClearer0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyClearer1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyClearer1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyClearer2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyClearer2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_predicate() {
        start();
        {
            fn see0(s: &mut HSyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyPredicate0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyPredicate1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                assert!(s.has_c() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyPredicate2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_reader() {
        start();
        {
            fn see0(s: &mut HSyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyReader0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyReader0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyReader1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyReader1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyReader2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyReader2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lazy_writer() {
        start();
        {
            fn see0(s: &mut HSyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyWriter0, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyWriter0::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_c().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyWriter1, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyWriter1::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_a().store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_c().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        {
            fn see0(s: &mut HSyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HSyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HSyncLazyWriter2, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLazyWriter2::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_c().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_get() {
        start();
        {
            fn see(s: &mut HSyncLockGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_get_mut() {
        start();
        {
            fn see(s: &mut HSyncLockGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_set() {
        start();
        {
            fn see(s: &mut HSyncLockSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_clearer() {
        start();
        {
            fn see(s: &mut HSyncLockClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_predicate() {
        start();
        {
            fn see(s: &mut HSyncLockPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_reader() {
        start();
        {
            fn see(s: &mut HSyncLockReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockReader0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockReader1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockReader2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_sync_lock_writer() {
        start();
        {
            fn see(s: &mut HSyncLockWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockWriter0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockWriter1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_b(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HSyncLockWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HSyncLockWriter2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_get() {
        start();
        {
            fn see(s: &mut HAsyncGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_get_mut() {
        start();
        {
            fn see(s: &mut HAsyncGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_set() {
        start();
        {
            fn see(s: &mut HAsyncSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut HAsyncSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_clearer() {
        start();
        {
            fn see0(s: &mut HAsyncClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_b()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_predicate() {
        start();
        {
            fn see0(s: &mut HAsyncPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncPredicate0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_a()) == v[0].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_b()) == v[1].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncPredicate1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncPredicate2, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_reader() {
        start();
        {
            fn see0(s: &mut HAsyncReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncReader0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncReader1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncReader2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_ordinary_writer() {
        start();
        {
            fn see0(s: &mut HAsyncWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncWriter0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncWriter1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_b()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncWriter2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_get() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalGet0, v: &mut [Option<i32>; 4]) {
            }
            fn see1(s: &mut HAsyncOptionalGet0, v: &mut [Option<i32>; 4]) {
            }
            fn see2(s: &mut HAsyncOptionalGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGet0, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGet1, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalGet2, v: &mut [Option<i32>; 4]) {
            }
            fn see1(s: &mut HAsyncOptionalGet2, v: &mut [Option<i32>; 4]) {
            }
            fn see2(s: &mut HAsyncOptionalGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGet2, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_get_mut() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGetMut0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.c_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGetMut1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.a_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.b_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.c_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalGetMut2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.c_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_set() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalSet0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalSet1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalSet2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_clearer() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalClearer0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_b()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalClearer2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_predicate() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalPredicate0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_a()) == v[0].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_b()) == v[1].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalPredicate1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalPredicate2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_reader() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalReader0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalReader1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalReader2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_optional_writer() {
        start();
        {
            fn see0(s: &mut HAsyncOptionalWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalWriter0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_c()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalWriter1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_a()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_b()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_c()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncOptionalWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncOptionalWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncOptionalWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncOptionalWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncOptionalWriter2::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_c()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_get() {
        start();
        {
            fn see0(s: &mut HAsyncLockGet0, v: &mut [Option<i32>; 4]) {
            }
            fn see1(s: &mut HAsyncLockGet0, v: &mut [Option<i32>; 4]) {
            }
            fn see2(s: &mut HAsyncLockGet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGet0, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLockGet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockGet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGet1, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLockGet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockGet2, v: &mut [Option<i32>; 4]) {
            }
            fn see1(s: &mut HAsyncLockGet2, v: &mut [Option<i32>; 4]) {
            }
            fn see2(s: &mut HAsyncLockGet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGet2, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(HAsyncLockGet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_get_mut() {
        start();
        {
            fn see0(s: &mut HAsyncLockGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGetMut0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockGetMut0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGetMut1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockGetMut1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.b_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockGetMut2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockGetMut2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_set() {
        start();
        {
            fn see0(s: &mut HAsyncLockSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockSet0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockSet0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockSet1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockSet1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockSet2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockSet2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_clearer() {
        start();
        {
            fn see0(s: &mut HAsyncLockClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockClearer0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockClearer0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockClearer1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockClearer1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_b()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockClearer2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockClearer2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_c()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_predicate() {
        start();
        {
            fn see0(s: &mut HAsyncLockPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockPredicate0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockPredicate0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockPredicate0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_a()) == v[0].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_b()) == v[1].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockPredicate1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockPredicate1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockPredicate1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockPredicate2, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_c()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockPredicate2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockPredicate2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_reader() {
        start();
        {
            fn see0(s: &mut HAsyncLockReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockReader0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockReader0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockReader1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockReader1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockReader2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockReader2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn helper_async_lock_writer() {
        start();
        {
            fn see0(s: &mut HAsyncLockWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockWriter0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockWriter0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockWriter1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockWriter1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_b()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut HAsyncLockWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut HAsyncLockWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut HAsyncLockWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut HAsyncLockWriter2, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(HAsyncLockWriter2::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

}
