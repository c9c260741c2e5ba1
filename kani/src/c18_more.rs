// Made by tools/gen_matrix.py
use crate::{common::*, lacks, matrix::*};
use fieldx::{fxstruct, Ref, RefMut};

// ---- form_plain_ordinary

#[fxstruct(mode(plain), get)]
pub struct FFormPlainOrdinary0a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get)]
pub struct FFormPlainOrdinary0b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get(copy))]
pub struct FFormPlainOrdinary1a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get(copy))]
pub struct FFormPlainOrdinary1b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get(clone))]
pub struct FFormPlainOrdinary2a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get(clone))]
pub struct FFormPlainOrdinary2b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, copy)]
pub struct FFormPlainOrdinary3a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get, copy)]
pub struct FFormPlainOrdinary3b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, clone)]
pub struct FFormPlainOrdinary4a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get, clone)]
pub struct FFormPlainOrdinary4b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get(copy), clone)]
pub struct FFormPlainOrdinary5a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get(copy), clone)]
pub struct FFormPlainOrdinary5b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get(clone), copy)]
pub struct FFormPlainOrdinary6a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOrdinary6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), get(clone), copy)]
pub struct FFormPlainOrdinary6b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormPlainOrdinary6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- form_plain_optional

#[fxstruct(mode(plain), optional, get)]
pub struct FFormPlainOptional0a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get)]
pub struct FFormPlainOptional0b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get(copy))]
pub struct FFormPlainOptional1a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get(copy))]
pub struct FFormPlainOptional1b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get(clone))]
pub struct FFormPlainOptional2a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get(clone))]
pub struct FFormPlainOptional2b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get, copy)]
pub struct FFormPlainOptional3a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get, copy)]
pub struct FFormPlainOptional3b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get, clone)]
pub struct FFormPlainOptional4a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get, clone)]
pub struct FFormPlainOptional4b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get(copy), clone)]
pub struct FFormPlainOptional5a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get(copy), clone)]
pub struct FFormPlainOptional5b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get(clone), copy)]
pub struct FFormPlainOptional6a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get(clone), copy)]
pub struct FFormPlainOptional6b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), optional, get(as_ref))]
pub struct FFormPlainOptional7a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormPlainOptional7a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), optional, get(as_ref))]
pub struct FFormPlainOptional7b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
    #[fieldx(get(as_ref), default(vinit(4)))]
    e: Val,
}
lacks! { FFormPlainOptional7b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e set_a set_b set_c set_d set_e write_a write_b write_c write_d write_e }

// ---- form_plain_lazy

#[fxstruct(mode(plain), lazy, get)]
pub struct FFormPlainLazy0a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy0a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get)]
pub struct FFormPlainLazy0b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy0b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get(copy))]
pub struct FFormPlainLazy1a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy1a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get(copy))]
pub struct FFormPlainLazy1b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy1b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get(clone))]
pub struct FFormPlainLazy2a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy2a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get(clone))]
pub struct FFormPlainLazy2b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy2b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get, copy)]
pub struct FFormPlainLazy3a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy3a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get, copy)]
pub struct FFormPlainLazy3b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy3b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get, clone)]
pub struct FFormPlainLazy4a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy4a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get, clone)]
pub struct FFormPlainLazy4b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy4b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get(copy), clone)]
pub struct FFormPlainLazy5a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy5a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get(copy), clone)]
pub struct FFormPlainLazy5b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy5b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), lazy, get(clone), copy)]
pub struct FFormPlainLazy6a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormPlainLazy6a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormPlainLazy6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(mode(plain), lazy, get(clone), copy)]
pub struct FFormPlainLazy6b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormPlainLazy6b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormPlainLazy6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- form_sync_ordinary

#[fxstruct(sync, get)]
pub struct FFormSyncOrdinary0a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get)]
pub struct FFormSyncOrdinary0b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get(copy))]
pub struct FFormSyncOrdinary1a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get(copy))]
pub struct FFormSyncOrdinary1b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get(clone))]
pub struct FFormSyncOrdinary2a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get(clone))]
pub struct FFormSyncOrdinary2b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, copy)]
pub struct FFormSyncOrdinary3a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get, copy)]
pub struct FFormSyncOrdinary3b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get, clone)]
pub struct FFormSyncOrdinary4a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get, clone)]
pub struct FFormSyncOrdinary4b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get(copy), clone)]
pub struct FFormSyncOrdinary5a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get(copy), clone)]
pub struct FFormSyncOrdinary5b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, get(clone), copy)]
pub struct FFormSyncOrdinary6a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOrdinary6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, get(clone), copy)]
pub struct FFormSyncOrdinary6b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOrdinary6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- form_sync_optional

#[fxstruct(sync, optional, get)]
pub struct FFormSyncOptional0a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get)]
pub struct FFormSyncOptional0b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get(copy))]
pub struct FFormSyncOptional1a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get(copy))]
pub struct FFormSyncOptional1b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get(clone))]
pub struct FFormSyncOptional2a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get(clone))]
pub struct FFormSyncOptional2b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, copy)]
pub struct FFormSyncOptional3a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get, copy)]
pub struct FFormSyncOptional3b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, clone)]
pub struct FFormSyncOptional4a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get, clone)]
pub struct FFormSyncOptional4b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get(copy), clone)]
pub struct FFormSyncOptional5a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get(copy), clone)]
pub struct FFormSyncOptional5b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get(clone), copy)]
pub struct FFormSyncOptional6a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncOptional6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, optional, get(clone), copy)]
pub struct FFormSyncOptional6b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncOptional6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- form_sync_lazy

#[fxstruct(sync, lazy, get)]
pub struct FFormSyncLazy0a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy0a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get)]
pub struct FFormSyncLazy0b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy0b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get(copy))]
pub struct FFormSyncLazy1a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy1a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get(copy))]
pub struct FFormSyncLazy1b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy1b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get(clone))]
pub struct FFormSyncLazy2a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy2a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get(clone))]
pub struct FFormSyncLazy2b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy2b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get, copy)]
pub struct FFormSyncLazy3a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy3a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get, copy)]
pub struct FFormSyncLazy3b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy3b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get, clone)]
pub struct FFormSyncLazy4a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy4a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get, clone)]
pub struct FFormSyncLazy4b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy4b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get(copy), clone)]
pub struct FFormSyncLazy5a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy5a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get(copy), clone)]
pub struct FFormSyncLazy5b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy5b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lazy, get(clone), copy)]
pub struct FFormSyncLazy6a {
    #[fieldx(get)]
    a: Val,
    #[fieldx(get)]
    b: Val,
    #[fieldx(get(copy))]
    c: Val,
    #[fieldx(get(clone))]
    d: Val,
    #[fieldx(copy)]
    e: Val,
    #[fieldx(clone)]
    f: Val,
}
impl FFormSyncLazy6a {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
    fn build_e(&self) -> Val {
        Val::of(made(4))
    }
    fn build_f(&self) -> Val {
        Val::of(made(5))
    }
}
lacks! { FFormSyncLazy6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lazy, get(clone), copy)]
pub struct FFormSyncLazy6b {
    #[fieldx(copy(off))]
    a: Val,
    #[fieldx(clone(off))]
    b: Val,
    #[fieldx(get(copy), clone)]
    c: Val,
    #[fieldx(get(clone), copy)]
    d: Val,
}
impl FFormSyncLazy6b {
    fn build_a(&self) -> Val {
        Val::of(made(0))
    }
    fn build_b(&self) -> Val {
        Val::of(made(1))
    }
    fn build_c(&self) -> Val {
        Val::of(made(2))
    }
    fn build_d(&self) -> Val {
        Val::of(made(3))
    }
}
lacks! { FFormSyncLazy6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- form_sync_lock

#[fxstruct(sync, lock, get)]
pub struct FFormSyncLock0a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get)]
pub struct FFormSyncLock0b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock0b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get(copy))]
pub struct FFormSyncLock1a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get(copy))]
pub struct FFormSyncLock1b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock1b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get(clone))]
pub struct FFormSyncLock2a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get(clone))]
pub struct FFormSyncLock2b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock2b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, copy)]
pub struct FFormSyncLock3a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get, copy)]
pub struct FFormSyncLock3b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock3b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, clone)]
pub struct FFormSyncLock4a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get, clone)]
pub struct FFormSyncLock4b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock4b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get(copy), clone)]
pub struct FFormSyncLock5a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get(copy), clone)]
pub struct FFormSyncLock5b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock5b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get(clone), copy)]
pub struct FFormSyncLock6a {
    a: Val,
    #[fieldx(get, default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), default(vinit(3)))]
    d: Val,
    #[fieldx(copy, default(vinit(4)))]
    e: Val,
    #[fieldx(clone, default(vinit(5)))]
    f: Val,
}
lacks! { FFormSyncLock6a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }

#[fxstruct(sync, lock, get(clone), copy)]
pub struct FFormSyncLock6b {
    #[fieldx(copy(off), default(vinit(0)))]
    a: Val,
    #[fieldx(clone(off), default(vinit(1)))]
    b: Val,
    #[fieldx(get(copy), clone, default(vinit(2)))]
    c: Val,
    #[fieldx(get(clone), copy, default(vinit(3)))]
    d: Val,
}
lacks! { FFormSyncLock6b: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }

// ---- into_plain_ordinary

#[fxstruct(mode(plain), get, set)]
pub struct IIntoPlainOrdinary0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, set(into))]
pub struct IIntoPlainOrdinary1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, set, into)]
pub struct IIntoPlainOrdinary2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, set(into), into)]
pub struct IIntoPlainOrdinary3a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, set, into(off))]
pub struct IIntoPlainOrdinary4a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- builder_into_plain_ordinary

#[fxstruct(mode(plain), get, builder)]
pub struct BBuilderIntoPlainOrdinary0a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, builder(into))]
pub struct BBuilderIntoPlainOrdinary1a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, builder, into)]
pub struct BBuilderIntoPlainOrdinary2a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, builder(into), set)]
pub struct BBuilderIntoPlainOrdinary3a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, builder, set(into))]
pub struct BBuilderIntoPlainOrdinary4a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), get, builder, into(off))]
pub struct BBuilderIntoPlainOrdinary5a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOrdinary5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

// ---- into_plain_optional

#[fxstruct(mode(plain), optional, get, set)]
pub struct IIntoPlainOptional0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOptional0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, set(into))]
pub struct IIntoPlainOptional1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOptional1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, set, into)]
pub struct IIntoPlainOptional2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOptional2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, set(into), into)]
pub struct IIntoPlainOptional3a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOptional3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, set, into(off))]
pub struct IIntoPlainOptional4a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoPlainOptional4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- builder_into_plain_optional

#[fxstruct(mode(plain), optional, get, builder)]
pub struct BBuilderIntoPlainOptional0a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, builder(into))]
pub struct BBuilderIntoPlainOptional1a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, builder, into)]
pub struct BBuilderIntoPlainOptional2a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, builder(into), set)]
pub struct BBuilderIntoPlainOptional3a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, builder, set(into))]
pub struct BBuilderIntoPlainOptional4a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(mode(plain), optional, get, builder, into(off))]
pub struct BBuilderIntoPlainOptional5a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoPlainOptional5a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

// ---- into_sync_ordinary

#[fxstruct(sync, get, set)]
pub struct IIntoSyncOrdinary0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, set(into))]
pub struct IIntoSyncOrdinary1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, set, into)]
pub struct IIntoSyncOrdinary2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, set(into), into)]
pub struct IIntoSyncOrdinary3a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, set, into(off))]
pub struct IIntoSyncOrdinary4a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- builder_into_sync_ordinary

#[fxstruct(sync, get, builder(into))]
pub struct BBuilderIntoSyncOrdinary0a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, builder(into), set)]
pub struct BBuilderIntoSyncOrdinary1a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, get, builder, into(off))]
pub struct BBuilderIntoSyncOrdinary2a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

// ---- into_sync_lock

#[fxstruct(sync, lock, get, set)]
pub struct IIntoSyncLock0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncLock0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, set(into))]
pub struct IIntoSyncLock1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncLock1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, set, into)]
pub struct IIntoSyncLock2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncLock2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, set(into), into)]
pub struct IIntoSyncLock3a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncLock3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, set, into(off))]
pub struct IIntoSyncLock4a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoSyncLock4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- builder_into_sync_lock

#[fxstruct(sync, lock, get, builder(into))]
pub struct BBuilderIntoSyncLock0a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncLock0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, builder(into), set)]
pub struct BBuilderIntoSyncLock1a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncLock1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lock, get, builder, into(off))]
pub struct BBuilderIntoSyncLock2a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoSyncLock2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

// ---- into_sync_lazy

#[fxstruct(sync, lazy, get, set)]
pub struct IIntoSyncLazy0a {
    #[fieldx(get, default(init(0)))]
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
impl IIntoSyncLazy0a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
    fn build_f(&self) -> i32 {
        i32::of(made(5))
    }
    fn build_g(&self) -> i32 {
        i32::of(made(6))
    }
}
lacks! { IIntoSyncLazy0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lazy, get, set(into))]
pub struct IIntoSyncLazy1a {
    #[fieldx(get, default(init(0)))]
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
impl IIntoSyncLazy1a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
    fn build_f(&self) -> i32 {
        i32::of(made(5))
    }
    fn build_g(&self) -> i32 {
        i32::of(made(6))
    }
}
lacks! { IIntoSyncLazy1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lazy, get, set, into)]
pub struct IIntoSyncLazy2a {
    #[fieldx(get, default(init(0)))]
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
impl IIntoSyncLazy2a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
    fn build_f(&self) -> i32 {
        i32::of(made(5))
    }
    fn build_g(&self) -> i32 {
        i32::of(made(6))
    }
}
lacks! { IIntoSyncLazy2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lazy, get, set(into), into)]
pub struct IIntoSyncLazy3a {
    #[fieldx(get, default(init(0)))]
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
impl IIntoSyncLazy3a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
    fn build_f(&self) -> i32 {
        i32::of(made(5))
    }
    fn build_g(&self) -> i32 {
        i32::of(made(6))
    }
}
lacks! { IIntoSyncLazy3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(sync, lazy, get, set, into(off))]
pub struct IIntoSyncLazy4a {
    #[fieldx(get, default(init(0)))]
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
impl IIntoSyncLazy4a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
    fn build_f(&self) -> i32 {
        i32::of(made(5))
    }
    fn build_g(&self) -> i32 {
        i32::of(made(6))
    }
}
lacks! { IIntoSyncLazy4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- into_async_ordinary

#[fxstruct(r#async, get, set)]
pub struct IIntoAsyncOrdinary0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoAsyncOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, set(into))]
pub struct IIntoAsyncOrdinary1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoAsyncOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, set, into)]
pub struct IIntoAsyncOrdinary2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoAsyncOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, set(into), into)]
pub struct IIntoAsyncOrdinary3a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoAsyncOrdinary3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, set, into(off))]
pub struct IIntoAsyncOrdinary4a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(set(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(set(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(set, into, default(init(6)))]
    g: i32,
}
lacks! { IIntoAsyncOrdinary4a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- builder_into_async_ordinary

#[fxstruct(r#async, get, builder(into))]
pub struct BBuilderIntoAsyncOrdinary0a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoAsyncOrdinary0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, builder(into), set)]
pub struct BBuilderIntoAsyncOrdinary1a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoAsyncOrdinary1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(r#async, get, builder, into(off))]
pub struct BBuilderIntoAsyncOrdinary2a {
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(builder(into), default(init(2)))]
    c: i32,
    #[fieldx(into, default(init(3)))]
    d: i32,
    #[fieldx(into(off), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), into(off), default(init(5)))]
    f: i32,
    #[fieldx(builder, into, default(init(6)))]
    g: i32,
}
lacks! { BBuilderIntoAsyncOrdinary2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }

// ---- optional_plain_0

#[fxstruct(mode(plain), get, set)]
pub struct KOptionalPlain00a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
}
lacks! { KOptionalPlain00a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- optional_plain_1

#[fxstruct(mode(plain), optional, get, set)]
pub struct KOptionalPlain10a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
}
lacks! { KOptionalPlain10a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- optional_plain_2

#[fxstruct(mode(plain), optional(off), get, set)]
pub struct KOptionalPlain20a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
}
lacks! { KOptionalPlain20a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- optional_sync_0

#[fxstruct(sync, get, set)]
pub struct KOptionalSync00a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync00a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_sync_1

#[fxstruct(sync, optional, get, set)]
pub struct KOptionalSync10a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync10a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_sync_2

#[fxstruct(sync, optional(off), get, set)]
pub struct KOptionalSync20a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync20a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_sync_3

#[fxstruct(sync, lock, get, set)]
pub struct KOptionalSync30a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync30a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_sync_4

#[fxstruct(sync, lock(off), get, set)]
pub struct KOptionalSync40a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync40a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_sync_5

#[fxstruct(sync, lock, optional, get, set)]
pub struct KOptionalSync50a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalSync50a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_0

#[fxstruct(r#async, get, set)]
pub struct KOptionalAsync00a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync00a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_1

#[fxstruct(r#async, optional, get, set)]
pub struct KOptionalAsync10a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync10a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_2

#[fxstruct(r#async, optional(off), get, set)]
pub struct KOptionalAsync20a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync20a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_3

#[fxstruct(r#async, lock, get, set)]
pub struct KOptionalAsync30a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync30a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_4

#[fxstruct(r#async, lock(off), get, set)]
pub struct KOptionalAsync40a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync40a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- optional_async_5

#[fxstruct(r#async, lock, optional, get, set)]
pub struct KOptionalAsync50a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(optional, default(init(2)))]
    c: i32,
    #[fieldx(optional(off), default(init(3)))]
    d: i32,
    #[fieldx(lock, default(init(4)))]
    e: i32,
    #[fieldx(lock(off), default(init(5)))]
    f: i32,
    #[fieldx(optional, lock(off), default(init(6)))]
    g: i32,
    #[fieldx(optional(off), lock, default(init(7)))]
    h: i32,
}
lacks! { KOptionalAsync50a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- inner_mut

#[fxstruct(get, set, get_mut)]
pub struct KInnerMut0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(inner_mut, default(init(2)))]
    c: i32,
    #[fieldx(inner_mut(off), default(init(3)))]
    d: i32,
    #[fieldx(inner_mut, optional, default(init(4)))]
    e: i32,
    #[fieldx(inner_mut(off), optional, default(init(5)))]
    f: i32,
    #[fieldx(inner_mut(off), clearer, default(init(6)))]
    g: i32,
}
lacks! { KInnerMut0a: clear_a clear_b clear_c clear_d clear_e clear_f has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(inner_mut, get, set, get_mut)]
pub struct KInnerMut1a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(inner_mut, default(init(2)))]
    c: i32,
    #[fieldx(inner_mut(off), default(init(3)))]
    d: i32,
    #[fieldx(inner_mut, optional, default(init(4)))]
    e: i32,
    #[fieldx(inner_mut(off), optional, default(init(5)))]
    f: i32,
    #[fieldx(inner_mut(off), clearer, default(init(6)))]
    g: i32,
}
lacks! { KInnerMut1a: clear_a clear_b clear_c clear_d clear_e clear_f has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

#[fxstruct(inner_mut(off), get, set, get_mut)]
pub struct KInnerMut2a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(inner_mut, default(init(2)))]
    c: i32,
    #[fieldx(inner_mut(off), default(init(3)))]
    d: i32,
    #[fieldx(inner_mut, optional, default(init(4)))]
    e: i32,
    #[fieldx(inner_mut(off), optional, default(init(5)))]
    f: i32,
    #[fieldx(inner_mut(off), clearer, default(init(6)))]
    g: i32,
}
lacks! { KInnerMut2a: clear_a clear_b clear_c clear_d clear_e clear_f has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- inner_mut_sync

#[fxstruct(sync, get, set, get_mut)]
pub struct KInnerMutSync0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(inner_mut, default(init(2)))]
    c: i32,
    #[fieldx(inner_mut(off), default(init(3)))]
    d: i32,
    #[fieldx(inner_mut, optional, default(init(4)))]
    e: i32,
    #[fieldx(inner_mut(off), optional, default(init(5)))]
    f: i32,
    #[fieldx(inner_mut(off), clearer, default(init(6)))]
    g: i32,
}
lacks! { KInnerMutSync0a: clear_a clear_b clear_c clear_d clear_e clear_f has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- inner_mut_async

#[fxstruct(r#async, get, set, get_mut)]
pub struct KInnerMutAsync0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(inner_mut, default(init(2)))]
    c: i32,
    #[fieldx(inner_mut(off), default(init(3)))]
    d: i32,
    #[fieldx(inner_mut, optional, default(init(4)))]
    e: i32,
}
lacks! { KInnerMutAsync0a: clear_a clear_b clear_c clear_d clear_e has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

// ---- lazy_plain_0

#[fxstruct(mode(plain), get, set)]
pub struct LLazyPlain00a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyPlain00a {
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyPlain00a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_plain_1

#[fxstruct(mode(plain), lazy, get, set)]
pub struct LLazyPlain10a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyPlain10a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyPlain10a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_plain_2

#[fxstruct(mode(plain), lazy(off), get, set)]
pub struct LLazyPlain20a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyPlain20a {
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyPlain20a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_sync_0

#[fxstruct(sync, get, set)]
pub struct LLazySync00a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazySync00a {
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazySync00a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_sync_1

#[fxstruct(sync, lazy, get, set)]
pub struct LLazySync10a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazySync10a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazySync10a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_sync_2

#[fxstruct(sync, lazy(off), get, set)]
pub struct LLazySync20a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazySync20a {
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazySync20a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_async_0

#[fxstruct(r#async, get, set)]
pub struct LLazyAsync00a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyAsync00a {
    async fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyAsync00a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_async_1

#[fxstruct(r#async, lazy, get, set)]
pub struct LLazyAsync10a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyAsync10a {
    async fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
    async fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyAsync10a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- lazy_async_2

#[fxstruct(r#async, lazy(off), get, set)]
pub struct LLazyAsync20a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(lazy)]
    b: i32,
    #[fieldx(lazy(off))]
    c: i32,
    #[fieldx(clearer, predicate)]
    d: i32,
    #[fieldx(lazy, clearer, predicate)]
    e: i32,
    #[fieldx(lazy(off), clearer, predicate)]
    f: i32,
}
impl LLazyAsync20a {
    async fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    async fn build_e(&self) -> i32 {
        i32::of(made(4))
    }
}
lacks! { LLazyAsync20a: a_mut b_mut c_mut clear_a clear_b clear_c d_mut e_mut f_mut has_a has_b has_c read_a read_b read_c read_d read_e read_f write_a write_b write_c write_d write_e write_f }

// ---- fallible_plain

#[fxstruct(mode(plain), get, set, fallible(error(MyErr)))]
pub struct EFalliblePlain0a {
    #[fieldx(lazy)]
    a: i32,
    #[fieldx(lazy, fallible)]
    b: i32,
    #[fieldx(lazy, fallible(off))]
    c: i32,
    #[fieldx(lazy, fallible(error(MyErr)))]
    d: i32,
    #[fieldx(get)]
    e: i32,
}
impl EFalliblePlain0a {
    fn build_a(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(0)))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(3)))
    }
}
lacks! { EFalliblePlain0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

#[fxstruct(mode(plain), get, set, fallible(off, error(MyErr)))]
pub struct EFalliblePlain1a {
    #[fieldx(lazy)]
    a: i32,
    #[fieldx(lazy, fallible)]
    b: i32,
    #[fieldx(lazy, fallible(off))]
    c: i32,
    #[fieldx(lazy, fallible(error(MyErr)))]
    d: i32,
    #[fieldx(get)]
    e: i32,
}
impl EFalliblePlain1a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(3)))
    }
}
lacks! { EFalliblePlain1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

// ---- fallible_lazy_plain

#[fxstruct(mode(plain), lazy, get, set, fallible(error(MyErr)))]
pub struct EFallibleLazyPlain0a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(fallible)]
    b: i32,
    #[fieldx(fallible(off))]
    c: i32,
    #[fieldx(lazy(off))]
    d: i32,
    #[fieldx(fallible(error(MyErr)))]
    e: i32,
}
impl EFallibleLazyPlain0a {
    fn build_a(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(0)))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_e(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(4)))
    }
}
lacks! { EFallibleLazyPlain0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

// ---- fallible_sync

#[fxstruct(sync, get, set, fallible(error(MyErr)))]
pub struct EFallibleSync0a {
    #[fieldx(lazy)]
    a: i32,
    #[fieldx(lazy, fallible)]
    b: i32,
    #[fieldx(lazy, fallible(off))]
    c: i32,
    #[fieldx(lazy, fallible(error(MyErr)))]
    d: i32,
    #[fieldx(get)]
    e: i32,
}
impl EFallibleSync0a {
    fn build_a(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(0)))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(3)))
    }
}
lacks! { EFallibleSync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

#[fxstruct(sync, get, set, fallible(off, error(MyErr)))]
pub struct EFallibleSync1a {
    #[fieldx(lazy)]
    a: i32,
    #[fieldx(lazy, fallible)]
    b: i32,
    #[fieldx(lazy, fallible(off))]
    c: i32,
    #[fieldx(lazy, fallible(error(MyErr)))]
    d: i32,
    #[fieldx(get)]
    e: i32,
}
impl EFallibleSync1a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(3)))
    }
}
lacks! { EFallibleSync1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

// ---- fallible_lazy_sync

#[fxstruct(sync, lazy, get, set, fallible(error(MyErr)))]
pub struct EFallibleLazySync0a {
    #[fieldx(get)]
    a: i32,
    #[fieldx(fallible)]
    b: i32,
    #[fieldx(fallible(off))]
    c: i32,
    #[fieldx(lazy(off))]
    d: i32,
    #[fieldx(fallible(error(MyErr)))]
    e: i32,
}
impl EFallibleLazySync0a {
    fn build_a(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(0)))
    }
    fn build_b(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(1)))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_e(&self) -> Result<i32, MyErr> {
        Ok(i32::of(made(4)))
    }
}
lacks! { EFallibleLazySync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e d_mut e_mut has_a has_b has_c has_d has_e read_a read_b read_c read_d read_e write_a write_b write_c write_d write_e }

// ---- mode_plain

#[fxstruct(mode(plain), get, set)]
pub struct MModePlain0a {
    a: i32,
    #[fieldx(mode(plain), default(init(1)))]
    b: i32,
    #[fieldx(mode(plain), optional, default(init(2)))]
    c: i32,
    #[fieldx(sync, lock, default(init(3)))]
    d: i32,
    #[fieldx(mode(sync), lock, default(init(4)))]
    e: i32,
    #[fieldx(mode(sync), optional, default(init(5)))]
    f: i32,
    #[fieldx(mode(async), lock, default(init(6)))]
    g: i32,
}
lacks! { MModePlain0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g write_a write_b write_c write_d write_e write_f write_g }

// ---- mode_sync

#[fxstruct(sync, get, set)]
pub struct MModeSync0a {
    a: i32,
    #[fieldx(lock(off), default(init(1)))]
    b: i32,
    #[fieldx(mode(plain), default(init(2)))]
    c: i32,
    #[fieldx(mode(plain), optional, default(init(3)))]
    d: i32,
    #[fieldx(sync, lock, default(init(4)))]
    e: i32,
    #[fieldx(mode(sync), lock, default(init(5)))]
    f: i32,
    #[fieldx(mode(sync), optional, default(init(6)))]
    g: i32,
    #[fieldx(mode(async), lock, default(init(7)))]
    h: i32,
}
lacks! { MModeSync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- mode_async

#[fxstruct(r#async, get, set)]
pub struct MModeAsync0a {
    a: i32,
    #[fieldx(lock(off), default(init(1)))]
    b: i32,
    #[fieldx(mode(plain), default(init(2)))]
    c: i32,
    #[fieldx(mode(plain), optional, default(init(3)))]
    d: i32,
    #[fieldx(sync, lock, default(init(4)))]
    e: i32,
    #[fieldx(mode(sync), lock, default(init(5)))]
    f: i32,
    #[fieldx(mode(sync), optional, default(init(6)))]
    g: i32,
    #[fieldx(mode(async), lock, default(init(7)))]
    h: i32,
}
lacks! { MModeAsync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- mode_lazy

#[fxstruct(mode(plain), get, set)]
pub struct MModeLazy0a {
    #[fieldx(mode(plain), lazy)]
    a: i32,
    #[fieldx(sync, lazy)]
    b: i32,
    #[fieldx(mode(sync), lazy, clearer)]
    c: i32,
}
impl MModeLazy0a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { MModeLazy0a: a_mut b_mut c_mut clear_a clear_b has_a has_b has_c read_a read_b read_c write_a write_b write_c }

// ---- mode_lazy_in_sync

#[fxstruct(sync, get, set)]
pub struct MModeLazyInSync0a {
    #[fieldx(mode(plain), lazy)]
    a: i32,
    #[fieldx(sync, lazy)]
    b: i32,
    #[fieldx(mode(sync), lazy, clearer)]
    c: i32,
}
impl MModeLazyInSync0a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { MModeLazyInSync0a: a_mut b_mut c_mut clear_a clear_b has_a has_b has_c read_a read_b read_c write_a write_b write_c }

// ---- mode_lazy_in_async

#[fxstruct(r#async, get, set)]
pub struct MModeLazyInAsync0a {
    #[fieldx(mode(plain), lazy)]
    a: i32,
    #[fieldx(sync, lazy)]
    b: i32,
    #[fieldx(mode(sync), lazy, clearer)]
    c: i32,
}
impl MModeLazyInAsync0a {
    fn build_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_b(&self) -> i32 {
        i32::of(made(1))
    }
    fn build_c(&self) -> i32 {
        i32::of(made(2))
    }
}
lacks! { MModeLazyInAsync0a: a_mut b_mut c_mut clear_a clear_b has_a has_b has_c read_a read_b read_c write_a write_b write_c }

// ---- builder_plain

#[fxstruct(mode(plain), get, builder)]
pub struct BBuilderPlain0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderPlain0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderPlain0aBuilder: d e }

#[fxstruct(mode(plain), get, builder(opt_in))]
pub struct BBuilderPlain1a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderPlain1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderPlain1aBuilder: a b d e }

#[fxstruct(mode(plain), get, builder("with_"))]
pub struct BBuilderPlain2a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderPlain2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderPlain2aBuilder: a b c d e f }

#[fxstruct(mode(plain), get, builder("with_", opt_in))]
pub struct BBuilderPlain3a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderPlain3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderPlain3aBuilder: a b c d e f }

// ---- builder_sync

#[fxstruct(sync, get, builder)]
pub struct BBuilderSync0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderSync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderSync0aBuilder: d e }

#[fxstruct(sync, get, builder(opt_in))]
pub struct BBuilderSync1a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderSync1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderSync1aBuilder: a b d e }

#[fxstruct(sync, get, builder("with_"))]
pub struct BBuilderSync2a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderSync2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderSync2aBuilder: a b c d e f }

#[fxstruct(sync, get, builder("with_", opt_in))]
pub struct BBuilderSync3a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderSync3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderSync3aBuilder: a b c d e f }

// ---- builder_async

#[fxstruct(r#async, get, builder)]
pub struct BBuilderAsync0a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderAsync0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderAsync0aBuilder: d e }

#[fxstruct(r#async, get, builder(opt_in))]
pub struct BBuilderAsync1a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderAsync1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderAsync1aBuilder: a b d e }

#[fxstruct(r#async, get, builder("with_"))]
pub struct BBuilderAsync2a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderAsync2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderAsync2aBuilder: a b c d e f }

#[fxstruct(r#async, get, builder("with_", opt_in))]
pub struct BBuilderAsync3a {
    a: i32,
    #[fieldx(default(init(1)))]
    b: i32,
    #[fieldx(builder, default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
    #[fieldx(builder("give"), default(init(4)))]
    e: i32,
    #[fieldx(builder(into), default(init(5)))]
    f: i32,
}
lacks! { BBuilderAsync3a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f d_mut e_mut f_mut has_a has_b has_c has_d has_e has_f read_a read_b read_c read_d read_e read_f set_a set_b set_c set_d set_e set_f write_a write_b write_c write_d write_e write_f }
lacks! { BBuilderAsync3aBuilder: a b c d e f }

// ---- builder_of_field

#[fxstruct(mode(plain), get)]
pub struct BBuilderOfField0a {
    a: i32,
    #[fieldx(builder("give"), default(init(1)))]
    b: i32,
    #[fieldx(default(init(2)))]
    c: i32,
    #[fieldx(builder(off), default(init(3)))]
    d: i32,
}
lacks! { BBuilderOfField0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_b set_c set_d write_a write_b write_c write_d }
lacks! { BBuilderOfField0aBuilder: a b c d }

// ---- attributes_plain_ordinary_get

#[fxstruct(mode(plain), set, get(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOrdinaryGet0a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGet0a: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), set, get(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOrdinaryGet1a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGet1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), set, get)]
pub struct AAttributesPlainOrdinaryGet2a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGet2a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_ordinary_get_mut

#[fxstruct(mode(plain), get, set, get_mut(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOrdinaryGetMut0a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGetMut0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), get, set, get_mut(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOrdinaryGetMut1a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGetMut1a: c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), get, set, get_mut)]
pub struct AAttributesPlainOrdinaryGetMut2a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinaryGetMut2a: c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_ordinary_set

#[fxstruct(mode(plain), get, set(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOrdinarySet0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinarySet0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_a set_b set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), get, set(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOrdinarySet1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinarySet1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), get, set)]
pub struct AAttributesPlainOrdinarySet2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOrdinarySet2a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_optional_get

#[fxstruct(mode(plain), optional, set, get(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOptionalGet0a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGet0a: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, set, get(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOptionalGet1a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGet1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, set, get)]
pub struct AAttributesPlainOptionalGet2a {
    a: i32,
    #[fieldx(get, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGet2a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e e_mut f_mut g_mut h h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_optional_get_mut

#[fxstruct(mode(plain), optional, get, set, get_mut(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOptionalGetMut0a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGetMut0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, get_mut(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOptionalGetMut1a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGetMut1a: c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, get_mut)]
pub struct AAttributesPlainOptionalGetMut2a {
    a: i32,
    #[fieldx(get_mut, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalGetMut2a: c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h e_mut g h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_optional_set

#[fxstruct(mode(plain), optional, get, set(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOptionalSet0a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalSet0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_a set_b set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOptionalSet1a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalSet1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set)]
pub struct AAttributesPlainOptionalSet2a {
    a: i32,
    #[fieldx(set, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalSet2a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_e set_h write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_optional_clearer

#[fxstruct(mode(plain), optional, get, set, clearer(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOptionalClearer0a {
    a: i32,
    #[fieldx(clearer, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalClearer0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_e clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, clearer(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOptionalClearer1a {
    a: i32,
    #[fieldx(clearer, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalClearer1a: a_mut b_mut c c_mut clear_c clear_e clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, clearer)]
pub struct AAttributesPlainOptionalClearer2a {
    a: i32,
    #[fieldx(clearer, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalClearer2a: a_mut b_mut c c_mut clear_c clear_e clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_d has_e has_f has_g has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_plain_optional_predicate

#[fxstruct(mode(plain), optional, get, set, predicate(attributes_fn(cfg(any()))))]
pub struct AAttributesPlainOptionalPredicate0a {
    a: i32,
    #[fieldx(predicate, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalPredicate0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_a has_b has_c has_e has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, predicate(attributes_fn(cfg(all()))))]
pub struct AAttributesPlainOptionalPredicate1a {
    a: i32,
    #[fieldx(predicate, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalPredicate1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_c has_e has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

#[fxstruct(mode(plain), optional, get, set, predicate)]
pub struct AAttributesPlainOptionalPredicate2a {
    a: i32,
    #[fieldx(predicate, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(7)))]
    h: i32,
}
lacks! { AAttributesPlainOptionalPredicate2a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g clear_h d_mut e_mut f_mut g g_mut h_mut has_c has_e has_h read_a read_b read_c read_d read_e read_f read_g read_h set_c set_g write_a write_b write_c write_d write_e write_f write_g write_h }

// ---- attributes_sync_lock_get

#[fxstruct(sync, lock, set, get(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncLockGet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGet0a: a a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, set, get(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncLockGet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, set, get)]
pub struct AAttributesSyncLockGet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_sync_lock_get_mut

#[fxstruct(sync, lock, get, set, get_mut(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncLockGetMut0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGetMut0a: a_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set, get_mut(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncLockGetMut1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGetMut1a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set, get_mut)]
pub struct AAttributesSyncLockGetMut2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockGetMut2a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_sync_lock_set

#[fxstruct(sync, lock, get, set(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncLockSet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockSet0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncLockSet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockSet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set)]
pub struct AAttributesSyncLockSet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockSet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

// ---- attributes_sync_lock_reader

#[fxstruct(sync, lock, get, set, reader(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncLockReader0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockReader0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set, reader(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncLockReader1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockReader1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, get, set, reader)]
pub struct AAttributesSyncLockReader2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockReader2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d write_a write_b write_c write_d }

// ---- attributes_sync_lock_writer

#[fxstruct(sync, lock, get, set, writer(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncLockWriter0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockWriter0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_d }

#[fxstruct(sync, lock, get, set, writer(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncLockWriter1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockWriter1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_d }

#[fxstruct(sync, lock, get, set, writer)]
pub struct AAttributesSyncLockWriter2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncLockWriter2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_d }

// ---- attributes_sync_optional_get

#[fxstruct(sync, optional, set, get(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncOptionalGet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGet0a: a a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, set, get(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncOptionalGet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, set, get)]
pub struct AAttributesSyncOptionalGet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_sync_optional_get_mut

#[fxstruct(sync, optional, get, set, get_mut(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncOptionalGetMut0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGetMut0a: a_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, get_mut(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncOptionalGetMut1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGetMut1a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, get_mut)]
pub struct AAttributesSyncOptionalGetMut2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalGetMut2a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_sync_optional_set

#[fxstruct(sync, optional, get, set(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncOptionalSet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalSet0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncOptionalSet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalSet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set)]
pub struct AAttributesSyncOptionalSet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalSet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

// ---- attributes_sync_optional_clearer

#[fxstruct(sync, optional, get, set, clearer(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncOptionalClearer0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalClearer0a: a_mut b_mut c_mut clear_a clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, clearer(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncOptionalClearer1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalClearer1a: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, clearer)]
pub struct AAttributesSyncOptionalClearer2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(clearer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(clearer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalClearer2a: a_mut b_mut c_mut clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_sync_optional_predicate

#[fxstruct(sync, optional, get, set, predicate(attributes_fn(cfg(any()))))]
pub struct AAttributesSyncOptionalPredicate0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalPredicate0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, predicate(attributes_fn(cfg(all()))))]
pub struct AAttributesSyncOptionalPredicate1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalPredicate1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, optional, get, set, predicate)]
pub struct AAttributesSyncOptionalPredicate2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(predicate(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(predicate(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesSyncOptionalPredicate2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_async_lock_get

#[fxstruct(r#async, lock, set, get(attributes_fn(cfg(any()))))]
pub struct AAttributesAsyncLockGet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGet0a: a a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, set, get(attributes_fn(cfg(all()))))]
pub struct AAttributesAsyncLockGet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, set, get)]
pub struct AAttributesAsyncLockGet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_async_lock_get_mut

#[fxstruct(r#async, lock, get, set, get_mut(attributes_fn(cfg(any()))))]
pub struct AAttributesAsyncLockGetMut0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGetMut0a: a_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set, get_mut(attributes_fn(cfg(all()))))]
pub struct AAttributesAsyncLockGetMut1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGetMut1a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set, get_mut)]
pub struct AAttributesAsyncLockGetMut2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(get_mut(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(get_mut(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockGetMut2a: clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

// ---- attributes_async_lock_set

#[fxstruct(r#async, lock, get, set(attributes_fn(cfg(any()))))]
pub struct AAttributesAsyncLockSet0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockSet0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_a set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set(attributes_fn(cfg(all()))))]
pub struct AAttributesAsyncLockSet1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockSet1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set)]
pub struct AAttributesAsyncLockSet2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(set(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(set(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockSet2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d set_d write_a write_b write_c write_d }

// ---- attributes_async_lock_reader

#[fxstruct(r#async, lock, get, set, reader(attributes_fn(cfg(any()))))]
pub struct AAttributesAsyncLockReader0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockReader0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set, reader(attributes_fn(cfg(all()))))]
pub struct AAttributesAsyncLockReader1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockReader1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d write_a write_b write_c write_d }

#[fxstruct(r#async, lock, get, set, reader)]
pub struct AAttributesAsyncLockReader2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(reader(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(reader(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockReader2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_d write_a write_b write_c write_d }

// ---- attributes_async_lock_writer

#[fxstruct(r#async, lock, get, set, writer(attributes_fn(cfg(any()))))]
pub struct AAttributesAsyncLockWriter0a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockWriter0a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_d }

#[fxstruct(r#async, lock, get, set, writer(attributes_fn(cfg(all()))))]
pub struct AAttributesAsyncLockWriter1a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockWriter1a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_d }

#[fxstruct(r#async, lock, get, set, writer)]
pub struct AAttributesAsyncLockWriter2a {
    a: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(1)))]
    b: i32,
    #[fieldx(writer(attributes_fn(cfg(all()))), default(init(2)))]
    c: i32,
    #[fieldx(writer(attributes_fn(cfg(any()))), attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
}
lacks! { AAttributesAsyncLockWriter2a: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_d }

// ---- attributes_builder

#[fxstruct(mode(plain), get, builder(attributes_fn(cfg(any()))))]
pub struct AAttributesBuilder0a {
    #[fieldx(default(init(0)))]
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(builder(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(builder(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(builder(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
}
lacks! { AAttributesBuilder0a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }
lacks! { AAttributesBuilder0aBuilder: a b c e }

#[fxstruct(mode(plain), get, builder)]
pub struct AAttributesBuilder1a {
    #[fieldx(default(init(0)))]
    a: i32,
    #[fieldx(builder, default(init(1)))]
    b: i32,
    #[fieldx(attributes_fn(cfg(any())), default(init(2)))]
    c: i32,
    #[fieldx(attributes_fn(cfg(all())), default(init(3)))]
    d: i32,
    #[fieldx(builder(attributes_fn(cfg(any()))), default(init(4)))]
    e: i32,
    #[fieldx(builder(attributes_fn(cfg(all()))), default(init(5)))]
    f: i32,
    #[fieldx(builder(attributes_fn(cfg(all()))), attributes_fn(cfg(any())), default(init(6)))]
    g: i32,
}
lacks! { AAttributesBuilder1a: a_mut b_mut c c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_g d_mut e_mut f_mut g g_mut has_a has_b has_c has_d has_e has_f has_g read_a read_b read_c read_d read_e read_f read_g set_a set_b set_c set_d set_e set_f set_g write_a write_b write_c write_d write_e write_f write_g }
lacks! { AAttributesBuilder1aBuilder: c e }

/// What is too much for the solver: the names and the types only, the behaviour is up to other properties
#[cfg(kani)]
mod compiled {
    use super::*;
    use std::mem::ManuallyDrop;

    fn lazy_async_0() {
        {
            fn see0(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                assert!(run_now(s.has_d()) == v[3].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazyAsync00a, v: &mut [Option<i32>; 6]) {
                assert!(run_now(s.has_f()) == v[5].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.f()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyAsync00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_d(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_e(exactly::<_>(x))); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_e()); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_f(exactly::<_>(x))); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_f()); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
    }
    fn lazy_async_1() {
        {
            fn see0(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazyAsync10a, v: &mut [Option<i32>; 6]) {
                assert!(run_now(s.has_f()) == v[5].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.f()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyAsync10a::new());
            let s = &mut *s;
            let v = &mut [None, None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_d(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_e(exactly::<_>(x))); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_e()); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_f(exactly::<_>(x))); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_f()); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
    }
    fn lazy_async_2() {
        {
            fn see0(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                assert!(run_now(s.has_d()) == v[3].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.d()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazyAsync20a, v: &mut [Option<i32>; 6]) {
                assert!(run_now(s.has_f()) == v[5].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.f()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyAsync20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_d(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_e(exactly::<_>(x))); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_e()); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_f(exactly::<_>(x))); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_f()); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_plain_ordinary() {
        start();
        {
            fn see(s: &mut FFormPlainOrdinary0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary0b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary0b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary1b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary1b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary2a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary2b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary2b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary3b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary3b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary4a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary4b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary4b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary5a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary5a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary5b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary5b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary6a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary6a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOrdinary6b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOrdinary6b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_plain_optional() {
        start();
        {
            fn see(s: &mut FFormPlainOptional0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional0b, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional0b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional1b, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional1b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional2a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional2b, v: &mut [Option<i32>; 5]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional2b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional3a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional3b, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional3b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional4a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional4a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional4b, v: &mut [Option<i32>; 5]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional4b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional5a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional5a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional5b, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional5b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional6a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional6a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional6b, v: &mut [Option<i32>; 5]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional6b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional7a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<&Val> = s.a(); r.map(num) } == v[0], "a wrong value is read");
                assert!({ let r: Option<&Val> = s.b(); r.map(num) } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional7a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainOptional7b, v: &mut [Option<i32>; 5]) {
                assert!({ let r: Option<&Val> = s.a(); r.map(num) } == v[0], "a wrong value is read");
                assert!({ let r: Option<&Val> = s.b(); r.map(num) } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<&Val> = s.e(); r.map(num) } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(FFormPlainOptional7b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_plain_lazy() {
        start();
        {
            fn see(s: &mut FFormPlainLazy0a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy0b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy0b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy1a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy1a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy1b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy1b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy2a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy2a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy2b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy2b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy3a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy3a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy3b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy3b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy4a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy4a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy4b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy4b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy5a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy5a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy5b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy5b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy6a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy6a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see(s, v);
        }
        {
            fn see(s: &mut FFormPlainLazy6b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormPlainLazy6b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_sync_ordinary() {
        start();
        {
            fn see(s: &mut FFormSyncOrdinary0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary0b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary0b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary1b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary1b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary2a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary2b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary2b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary3b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary3b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary4a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary4b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary4b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary5a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary5a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary5b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary5b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary6a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary6a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOrdinary6b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: &Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOrdinary6b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_sync_optional() {
        start();
        {
            fn see(s: &mut FFormSyncOptional0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Rd<Option<Val>> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<Val>> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional0b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<Val>> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<Val>> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional0b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional1b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<Val>> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional1b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional2a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional2b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Option<Val>> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional2b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional3a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional3b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<Val>> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional3b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional4a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional4a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional4b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Option<Val>> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional4b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional5a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional5a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional5b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<Val>> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional5b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional6a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Option<Val> = s.e(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.f(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional6a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncOptional6b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Option<Val> = s.a(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Option<Val>> = s.b(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Option<Val> = s.c(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Option<Val> = s.d(); { let o: &Option<Val> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncOptional6b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_sync_lazy() {
        start();
        {
            fn see0(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy0a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy0b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy0b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy0b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy0b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy0b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy1a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy1a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy1b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy1b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy1b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy1b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy1b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
            }
            fn see2(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy2a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy2a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy2b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy2b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy2b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy2b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy2b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy3a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy3a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy3b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy3b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy3b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy3b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy3b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
            }
            fn see2(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy4a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy4a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy4b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy4b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy4b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy4b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy4b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy5a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy5a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy5b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut FFormSyncLazy5b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy5b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy5b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy5b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
            }
            fn see2(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            fn see4(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut FFormSyncLazy6a, v: &mut [Option<i32>; 6]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy6a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
            see4(s, v);
            see5(s, v);
        }
        {
            fn see0(s: &mut FFormSyncLazy6b, v: &mut [Option<i32>; 4]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
            }
            fn see1(s: &mut FFormSyncLazy6b, v: &mut [Option<i32>; 4]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut FFormSyncLazy6b, v: &mut [Option<i32>; 4]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut FFormSyncLazy6b, v: &mut [Option<i32>; 4]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLazy6b::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            see1(s, v);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn form_sync_lock() {
        start();
        {
            fn see(s: &mut FFormSyncLock0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Rd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock0b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock0b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock1b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock1b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock2a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock2b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock2b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock3b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock3b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock4a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock4b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock4b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock5a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock5a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock5b, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Val> = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock5b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock6a, v: &mut [Option<i32>; 6]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                let c = val_clones();
                assert!({ let r: Val = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(val_clones() != c || v[1].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
                assert!({ let r: Val = s.e(); { let o: &Val = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.f(); { let o: &Val = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!(val_clones() != c || v[5].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock6a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut FFormSyncLock6b, v: &mut [Option<i32>; 4]) {
                let c = val_clones();
                assert!({ let r: Val = s.a(); { let o: &Val = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(val_clones() != c || v[0].is_none(), "the value isn't cloned");
                assert!({ let r: Rd<Val> = s.b(); { let o: &Val = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Val = s.c(); { let o: &Val = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                let c = val_clones();
                assert!({ let r: Val = s.d(); { let o: &Val = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(val_clones() != c || v[3].is_none(), "the value isn't cloned");
            }
            let mut s = ManuallyDrop::new(FFormSyncLock6b::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_plain_ordinary() {
        start();
        {
            fn see(s: &mut IIntoPlainOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOrdinary0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOrdinary1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOrdinary2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOrdinary3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOrdinary3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOrdinary4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOrdinary4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_into_plain_ordinary() {
        start();
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary0a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary1a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary2a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary3a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary4a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOrdinary5a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOrdinary5a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_plain_optional() {
        start();
        {
            fn see(s: &mut IIntoPlainOptional0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOptional0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOptional1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOptional1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOptional2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOptional2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOptional3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOptional3a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoPlainOptional4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoPlainOptional4a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_into_plain_optional() {
        start();
        {
            fn see(s: &mut BBuilderIntoPlainOptional0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional0a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOptional1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional1a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOptional2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional2a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOptional3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional3a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOptional4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional4a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoPlainOptional5a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoPlainOptional5a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_sync_ordinary() {
        start();
        {
            fn see(s: &mut IIntoSyncOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncOrdinary0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncOrdinary1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncOrdinary2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncOrdinary3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncOrdinary3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncOrdinary4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncOrdinary4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_into_sync_ordinary() {
        start();
        {
            fn see(s: &mut BBuilderIntoSyncOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncOrdinary0a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoSyncOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncOrdinary1a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoSyncOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncOrdinary2a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_sync_lock() {
        start();
        {
            fn see(s: &mut IIntoSyncLock0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLock0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncLock1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLock1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncLock2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLock2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncLock3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLock3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoSyncLock4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLock4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_into_sync_lock() {
        start();
        {
            fn see(s: &mut BBuilderIntoSyncLock0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncLock0a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoSyncLock1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncLock1a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoSyncLock2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoSyncLock2a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_sync_lazy() {
        start();
        {
            fn see0(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                assert!({ let r: MRd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut IIntoSyncLazy0a, v: &mut [Option<i32>; 7]) {
                v[6] = Some(v[6].unwrap_or(made(6)));
                assert!({ let r: MRd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLazy0a::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        {
            fn see0(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                assert!({ let r: MRd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut IIntoSyncLazy1a, v: &mut [Option<i32>; 7]) {
                v[6] = Some(v[6].unwrap_or(made(6)));
                assert!({ let r: MRd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLazy1a::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        {
            fn see0(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                assert!({ let r: MRd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut IIntoSyncLazy2a, v: &mut [Option<i32>; 7]) {
                v[6] = Some(v[6].unwrap_or(made(6)));
                assert!({ let r: MRd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLazy2a::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        {
            fn see0(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                assert!({ let r: MRd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut IIntoSyncLazy3a, v: &mut [Option<i32>; 7]) {
                v[6] = Some(v[6].unwrap_or(made(6)));
                assert!({ let r: MRd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLazy3a::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(Conv(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(Conv(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        {
            fn see0(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[5] = Some(v[5].unwrap_or(made(5)));
                assert!({ let r: MRd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut IIntoSyncLazy4a, v: &mut [Option<i32>; 7]) {
                v[6] = Some(v[6].unwrap_or(made(6)));
                assert!({ let r: MRd<i32> = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoSyncLazy4a::new());
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(Conv(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(Conv(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(Conv(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(Conv(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn into_async_ordinary() {
        start();
        {
            fn see(s: &mut IIntoAsyncOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoAsyncOrdinary0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoAsyncOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoAsyncOrdinary1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoAsyncOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoAsyncOrdinary2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoAsyncOrdinary3a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoAsyncOrdinary3a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(Conv(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(Conv(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut IIntoAsyncOrdinary4a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(IIntoAsyncOrdinary4a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(Conv(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(Conv(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_into_async_ordinary() {
        start();
        {
            fn see(s: &mut BBuilderIntoAsyncOrdinary0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoAsyncOrdinary0a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoAsyncOrdinary1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoAsyncOrdinary1a::builder();
            let b = b.a(Conv(init(0)));
            let b = b.b(Conv(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(Conv(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(Conv(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderIntoAsyncOrdinary2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let b = BBuilderIntoAsyncOrdinary2a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(Conv(init(2)));
            let b = b.d(Conv(init(3)));
            let b = b.e(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let b = b.g(Conv(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_plain_0() {
        start();
        {
            fn see(s: &mut KOptionalPlain00a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalPlain00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_plain_1() {
        start();
        {
            fn see(s: &mut KOptionalPlain10a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalPlain10a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_plain_2() {
        start();
        {
            fn see(s: &mut KOptionalPlain20a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalPlain20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_0() {
        start();
        {
            fn see(s: &mut KOptionalSync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_1() {
        start();
        {
            fn see(s: &mut KOptionalSync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync10a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_2() {
        start();
        {
            fn see(s: &mut KOptionalSync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_3() {
        start();
        {
            fn see(s: &mut KOptionalSync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync30a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_4() {
        start();
        {
            fn see(s: &mut KOptionalSync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync40a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_sync_5() {
        start();
        {
            fn see(s: &mut KOptionalSync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalSync50a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_0() {
        start();
        {
            fn see0(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync00a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_e(exactly::<_>(x))); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_1() {
        start();
        {
            fn see0(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.e()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync10a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync10a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_e(exactly::<_>(x))); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_2() {
        start();
        {
            fn see0(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync20a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_e(exactly::<_>(x))); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_3() {
        start();
        {
            fn see0(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync30a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync30a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_e(exactly::<_>(x))); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_4() {
        start();
        {
            fn see0(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.e()); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync40a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync40a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_e(exactly::<_>(x))); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn optional_async_5() {
        start();
        {
            fn see0(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.b()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.c()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<Option<i32>> = run_now(s.e()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut KOptionalAsync50a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KOptionalAsync50a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_b(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_c(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_e(exactly::<_>(x))); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn inner_mut() {
        start();
        {
            fn see(s: &mut KInnerMut0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KInnerMut0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.e_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
        }
        {
            fn see(s: &mut KInnerMut1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Ref<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KInnerMut1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.e_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
        }
        {
            fn see(s: &mut KInnerMut2a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KInnerMut2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.e_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn inner_mut_sync() {
        start();
        {
            fn see(s: &mut KInnerMutSync0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KInnerMutSync0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.e_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn inner_mut_async() {
        start();
        {
            fn see(s: &mut KInnerMutAsync0a, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Ref<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Ref<Option<i32>> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(KInnerMutAsync0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.e_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_plain_0() {
        start();
        {
            fn see(s: &mut LLazyPlain00a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyPlain00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } == v[4], "a wrong value is cleared");
            v[4] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_plain_1() {
        start();
        {
            fn see(s: &mut LLazyPlain10a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyPlain10a::new());
            let s = &mut *s;
            let v = &mut [None, None, Some(0), None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } == v[4], "a wrong value is cleared");
            v[4] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_plain_2() {
        start();
        {
            fn see(s: &mut LLazyPlain20a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazyPlain20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } == v[4], "a wrong value is cleared");
            v[4] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_sync_0() {
        start();
        {
            fn see0(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazySync00a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazySync00a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_sync_1() {
        start();
        {
            fn see0(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazySync10a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazySync10a::new());
            let s = &mut *s;
            let v = &mut [None, None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn lazy_sync_2() {
        start();
        {
            fn see0(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_e() == v[4].is_some(), "wrong predicate");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut LLazySync20a, v: &mut [Option<i32>; 6]) {
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(LLazySync20a::new());
            let s = &mut *s;
            let v = &mut [Some(0), None, Some(0), None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_e(); r.as_ref().map(num) } } == v[4], "a wrong value is cleared");
            v[4] = None;
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } } == v[5], "a wrong value is cleared");
            v[5] = None;
            see5(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn fallible_plain() {
        start();
        {
            fn see(s: &mut EFalliblePlain0a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.d().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFalliblePlain0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, Some(0)];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut EFalliblePlain1a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.d().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFalliblePlain1a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, Some(0)];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn fallible_lazy_plain() {
        start();
        {
            fn see(s: &mut EFallibleLazyPlain0a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: &i32 = s.e().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFallibleLazyPlain0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, Some(0), None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn fallible_sync() {
        start();
        {
            fn see0(s: &mut EFallibleSync0a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut EFallibleSync0a, v: &mut [Option<i32>; 5]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut EFallibleSync0a, v: &mut [Option<i32>; 5]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut EFallibleSync0a, v: &mut [Option<i32>; 5]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut EFallibleSync0a, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFallibleSync0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, Some(0)];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
        }
        {
            fn see0(s: &mut EFallibleSync1a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut EFallibleSync1a, v: &mut [Option<i32>; 5]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut EFallibleSync1a, v: &mut [Option<i32>; 5]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut EFallibleSync1a, v: &mut [Option<i32>; 5]) {
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.d().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut EFallibleSync1a, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFallibleSync1a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None, Some(0)];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn fallible_lazy_sync() {
        start();
        {
            fn see0(s: &mut EFallibleLazySync0a, v: &mut [Option<i32>; 5]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut EFallibleLazySync0a, v: &mut [Option<i32>; 5]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut EFallibleLazySync0a, v: &mut [Option<i32>; 5]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut EFallibleLazySync0a, v: &mut [Option<i32>; 5]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut EFallibleLazySync0a, v: &mut [Option<i32>; 5]) {
                v[4] = Some(v[4].unwrap_or(made(4)));
                assert!({ let r: MRd<i32> = s.e().ok().unwrap(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(EFallibleLazySync0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None, Some(0), None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_plain() {
        start();
        {
            fn see0(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &Option<i32> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: Rd<Option<i32>> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut MModePlain0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: ARd<i32> = run_now(s.g()); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModePlain0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_g(exactly::<_>(x))); Some(num(&r)) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_sync() {
        start();
        {
            fn see0(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<Option<i32>> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut MModeSync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModeSync0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_async() {
        start();
        {
            fn see0(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            fn see4(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<i32> = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
            }
            fn see5(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<i32> = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            fn see6(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: Rd<Option<i32>> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            fn see7(s: &mut MModeAsync0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: ARd<i32> = run_now(s.h()); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModeAsync0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            see4(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see4(s, v);
            see5(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see5(s, v);
            see6(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see6(s, v);
            see7(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_h(exactly::<_>(x))); Some(num(&r)) } } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see7(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_lazy() {
        start();
        {
            fn see0(s: &mut MModeLazy0a, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModeLazy0a, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModeLazy0a, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModeLazy0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_lazy_in_sync() {
        start();
        {
            fn see0(s: &mut MModeLazyInSync0a, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModeLazyInSync0a, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModeLazyInSync0a, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModeLazyInSync0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn mode_lazy_in_async() {
        start();
        {
            fn see0(s: &mut MModeLazyInAsync0a, v: &mut [Option<i32>; 3]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut MModeLazyInAsync0a, v: &mut [Option<i32>; 3]) {
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut MModeLazyInAsync0a, v: &mut [Option<i32>; 3]) {
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(MModeLazyInAsync0a::new());
            let s = &mut *s;
            let v = &mut [None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_plain() {
        start();
        {
            fn see(s: &mut BBuilderPlain0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderPlain0a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderPlain1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderPlain1a::builder();
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderPlain2a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderPlain2a::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_b(exactly::<_>(init(1)));
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderPlain3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderPlain3a::builder();
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_sync() {
        start();
        {
            fn see(s: &mut BBuilderSync0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderSync0a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderSync1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderSync1a::builder();
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderSync2a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderSync2a::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_b(exactly::<_>(init(1)));
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderSync3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderSync3a::builder();
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_async() {
        start();
        {
            fn see(s: &mut BBuilderAsync0a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderAsync0a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderAsync1a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderAsync1a::builder();
            let b = b.c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderAsync2a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderAsync2a::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_b(exactly::<_>(init(1)));
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        {
            fn see(s: &mut BBuilderAsync3a, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = BBuilderAsync3a::builder();
            let b = b.with_c(exactly::<_>(init(2)));
            let b = b.give(exactly::<_>(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn builder_of_field() {
        start();
        {
            fn see(s: &mut BBuilderOfField0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let b = BBuilderOfField0a::builder();
            let b = b.give(exactly::<_>(init(1)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_ordinary_get() {
        start();
        {
            fn see(s: &mut AAttributesPlainOrdinaryGet0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinaryGet1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinaryGet2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.g(); { let o: &i32 = &r; Some(num(o)) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_ordinary_get_mut() {
        start();
        {
            fn see(s: &mut AAttributesPlainOrdinaryGetMut0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGetMut0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.f_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.g_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinaryGetMut1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGetMut1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.f_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.g_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinaryGetMut2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinaryGetMut2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.d_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.f_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.g_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_h(exactly::<_>(x)); Some(num(&r)) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_ordinary_set() {
        start();
        {
            fn see(s: &mut AAttributesPlainOrdinarySet0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinarySet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(exactly::<_>(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinarySet1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinarySet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(exactly::<_>(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOrdinarySet2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
                assert!({ let r: &i32 = s.h(); { let o: &i32 = &r; Some(num(o)) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOrdinarySet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_f(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_g(exactly::<_>(x)); Some(num(&r)) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_optional_get() {
        start();
        {
            fn see(s: &mut AAttributesPlainOptionalGet0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGet0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalGet1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGet1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalGet2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.g(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[6], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGet2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_optional_get_mut() {
        start();
        {
            fn see(s: &mut AAttributesPlainOptionalGetMut0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGetMut0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.d_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalGetMut1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGetMut1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.d_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalGetMut2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalGetMut2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.d_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.f_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.g_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_optional_set() {
        start();
        {
            fn see(s: &mut AAttributesPlainOptionalSet0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalSet0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalSet1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalSet1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalSet2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalSet2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_g(exactly::<_>(x)); r.as_ref().map(num) } == v[6], "a wrong previous value");
            v[6] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_optional_clearer() {
        start();
        {
            fn see(s: &mut AAttributesPlainOptionalClearer0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalClearer0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalClearer1a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalClearer1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalClearer2a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalClearer2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_f(); r.as_ref().map(num) } == v[5], "a wrong value is cleared");
            v[5] = None;
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_g(); r.as_ref().map(num) } == v[6], "a wrong value is cleared");
            v[6] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_plain_optional_predicate() {
        start();
        {
            fn see(s: &mut AAttributesPlainOptionalPredicate0a, v: &mut [Option<i32>; 8]) {
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(s.has_g() == v[6].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalPredicate0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalPredicate1a, v: &mut [Option<i32>; 8]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(s.has_g() == v[6].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalPredicate1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesPlainOptionalPredicate2a, v: &mut [Option<i32>; 8]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: &Option<i32> = s.e(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[4], "a wrong value is read");
                assert!(s.has_f() == v[5].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.f(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[5], "a wrong value is read");
                assert!(s.has_g() == v[6].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.h(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[7], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesPlainOptionalPredicate2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6)), Some(init(7))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_e(exactly::<_>(x)); r.as_ref().map(num) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_f(exactly::<_>(x)); r.as_ref().map(num) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_h(exactly::<_>(x)); r.as_ref().map(num) } == v[7], "a wrong previous value");
            v[7] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_lock_get() {
        start();
        {
            fn see(s: &mut AAttributesSyncLockGet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockGet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockGet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_lock_get_mut() {
        start();
        {
            fn see(s: &mut AAttributesSyncLockGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGetMut0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGetMut1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockGetMut2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.b_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.c_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_lock_set() {
        start();
        {
            fn see(s: &mut AAttributesSyncLockSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockSet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockSet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockSet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_lock_reader() {
        start();
        {
            fn see(s: &mut AAttributesSyncLockReader0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockReader0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockReader1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockReader1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockReader2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockReader2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_lock_writer() {
        start();
        {
            fn see(s: &mut AAttributesSyncLockWriter0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockWriter0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_b(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockWriter1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockWriter1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_b(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncLockWriter2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncLockWriter2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_b(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_c(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_optional_get() {
        start();
        {
            fn see(s: &mut AAttributesSyncOptionalGet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGet0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalGet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGet1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalGet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGet2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_optional_get_mut() {
        start();
        {
            fn see(s: &mut AAttributesSyncOptionalGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGetMut0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGetMut1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalGetMut2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.b_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.c_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_optional_set() {
        start();
        {
            fn see(s: &mut AAttributesSyncOptionalSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalSet0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalSet1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalSet2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_optional_clearer() {
        start();
        {
            fn see(s: &mut AAttributesSyncOptionalClearer0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalClearer0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalClearer1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalClearer1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalClearer2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalClearer2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_sync_optional_predicate() {
        start();
        {
            fn see(s: &mut AAttributesSyncOptionalPredicate0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalPredicate0a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalPredicate1a, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalPredicate1a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesSyncOptionalPredicate2a, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_b() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.has_c() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesSyncOptionalPredicate2a::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_async_lock_get() {
        start();
        {
            fn see0(s: &mut AAttributesAsyncLockGet0a, v: &mut [Option<i32>; 4]) {
            }
            fn see1(s: &mut AAttributesAsyncLockGet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGet0a, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockGet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockGet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGet1a, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockGet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockGet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGet2a, v: &mut [Option<i32>; 4]) {
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_async_lock_get_mut() {
        start();
        {
            fn see0(s: &mut AAttributesAsyncLockGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGetMut0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGetMut0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.b_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGetMut1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGetMut1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.b_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockGetMut2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockGetMut2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.b_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.c_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_async_lock_set() {
        start();
        {
            fn see0(s: &mut AAttributesAsyncLockSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockSet0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockSet0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockSet1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockSet1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockSet2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockSet2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_async_lock_reader() {
        start();
        {
            fn see0(s: &mut AAttributesAsyncLockReader0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockReader0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockReader0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockReader0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockReader0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockReader1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockReader1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockReader1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockReader1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockReader1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockReader2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockReader2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockReader2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockReader2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockReader2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_async_lock_writer() {
        start();
        {
            fn see0(s: &mut AAttributesAsyncLockWriter0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockWriter0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockWriter0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockWriter0a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockWriter0a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_b()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockWriter1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockWriter1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockWriter1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockWriter1a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockWriter1a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_b()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        {
            fn see0(s: &mut AAttributesAsyncLockWriter2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut AAttributesAsyncLockWriter2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.b()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut AAttributesAsyncLockWriter2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.c()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut AAttributesAsyncLockWriter2a, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(AAttributesAsyncLockWriter2a::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_b(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_b()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_c(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_c()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_d(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn attributes_builder() {
        start();
        {
            fn see(s: &mut AAttributesBuilder0a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = AAttributesBuilder0a::builder();
            let b = b.d(exactly::<_>(init(3)));
            let b = b.f(exactly::<_>(init(5)));
            let b = b.g(exactly::<_>(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        {
            fn see(s: &mut AAttributesBuilder1a, v: &mut [Option<i32>; 7]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.e(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = AAttributesBuilder1a::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.b(exactly::<_>(init(1)));
            let b = b.d(exactly::<_>(init(3)));
            let b = b.f(exactly::<_>(init(5)));
            let b = b.g(exactly::<_>(init(6)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5)), Some(init(6))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

}
