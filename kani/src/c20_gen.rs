// Made by tools/gen_matrix.py
use crate::{common::*, lacks, matrix::*};
use fieldx::{fxstruct, Ref, RefMut};

// ---- names_plain_ordinary_0

#[fxstruct(mode(plain), get, get_mut, set)]
pub struct NPlainOrdinary0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NPlainOrdinary0: b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed read_a read_b read_c read_d read_other read_renamed renamed set_b set_c set_d set_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_ordinary_1

#[fxstruct(mode(plain), get("the_"), get_mut("ref_"), set("put_"))]
pub struct NPlainOrdinary1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NPlainOrdinary1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_optional_0

#[fxstruct(mode(plain), optional, get, get_mut, set, clearer, predicate)]
pub struct NPlainOptional0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), default(init(3)))]
    d: i32,
}
lacks! { NPlainOptional0: b b_mut c c_mut clear_b clear_c clear_d d d_mut has_b has_c has_d has_renamed read_a read_b read_c read_d read_other read_renamed renamed set_b set_c set_d set_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_optional_1

#[fxstruct(mode(plain), optional, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"))]
pub struct NPlainOptional1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), default(init(3)))]
    d: i32,
}
lacks! { NPlainOptional1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut drop_b drop_c drop_d has_a has_b has_c has_d has_other has_renamed knows_b knows_c knows_d knows_renamed other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_lazy_0

#[fxstruct(mode(plain), lazy, get, get_mut, set, clearer, predicate)]
pub struct NPlainLazy0 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NPlainLazy0 {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NPlainLazy0: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_a read_b read_c read_d read_other read_third set_b set_c set_d third_mut write_a write_b write_c write_d write_other write_third }

// ---- names_plain_lazy_1

#[fxstruct(mode(plain), lazy, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"))]
pub struct NPlainLazy1 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NPlainLazy1 {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NPlainLazy1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_third d d_mut drop_b drop_c drop_third has_a has_b has_c has_d has_other has_third knows_b knows_c other other_mut put_b put_c put_d read_a read_b read_c read_d read_other read_third ref_b_mut ref_c_mut ref_d_mut ref_third_mut set_a set_b set_c set_d set_other set_third the_b the_c the_d third third_mut write_a write_b write_c write_d write_other write_third }

// ---- names_plain_lazy_2

#[fxstruct(mode(plain), lazy("make_"), get, get_mut, set, clearer, predicate)]
pub struct NPlainLazyPrefix {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NPlainLazyPrefix {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn make_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn make_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NPlainLazyPrefix: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_a read_b read_c read_d read_other read_third set_b set_c set_d third_mut write_a write_b write_c write_d write_other write_third }

// ---- names_plain_inner_mut_0

#[fxstruct(inner_mut, get, get_mut, set, clearer, predicate)]
pub struct NPlainInnerMut0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), default(init(3)))]
    d: i32,
}
lacks! { NPlainInnerMut0: b b_mut c c_mut clear_b clear_c clear_d d d_mut has_b has_c has_d has_renamed read_a read_b read_c read_d read_other read_renamed renamed set_b set_c set_d set_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_inner_mut_1

#[fxstruct(inner_mut, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"))]
pub struct NPlainInnerMut1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), default(init(3)))]
    d: i32,
}
lacks! { NPlainInnerMut1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut drop_b drop_c drop_d has_a has_b has_c has_d has_other has_renamed knows_b knows_c knows_d knows_renamed other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_plain_builder

#[fxstruct(mode(plain), get, set, builder)]
pub struct NPlainBuilder0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NPlainBuilder0: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NPlainBuilder0Builder: b c d }

#[fxstruct(mode(plain), get, set, builder("with_"))]
pub struct NPlainBuilder1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NPlainBuilder1: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NPlainBuilder1Builder: a b c d e f }

#[fxstruct(mode(plain), get, set, builder("with_", into))]
pub struct NPlainBuilder2 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NPlainBuilder2: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NPlainBuilder2Builder: a b c d e f }

// ---- names_sync_ordinary_0

#[fxstruct(sync, get, get_mut, set)]
pub struct NSyncOrdinary0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NSyncOrdinary0: b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed read_a read_b read_c read_d read_other read_renamed renamed set_b set_c set_d set_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_sync_ordinary_1

#[fxstruct(sync, get("the_"), get_mut("ref_"), set("put_"))]
pub struct NSyncOrdinary1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NSyncOrdinary1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_sync_optional_0

#[fxstruct(sync, optional, get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NSyncOptional0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NSyncOptional0: b b_mut c c_mut clear_b clear_c clear_d d d_mut has_b has_c has_d has_renamed read_b read_c read_d renamed set_b set_c set_d set_renamed write_b write_c write_d write_renamed }

// ---- names_sync_optional_1

#[fxstruct(sync, optional, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"), reader("look_"), writer("change_"))]
pub struct NSyncOptional1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NSyncOptional1: a a_mut b b_mut c c_mut change_b change_c change_d change_renamed clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut drop_b drop_c drop_d has_a has_b has_c has_d has_other has_renamed knows_b knows_c knows_d knows_renamed look_b look_c look_d other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_sync_lazy_0

#[fxstruct(sync, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NSyncLazy0 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NSyncLazy0 {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NSyncLazy0: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_b read_c read_third set_b set_c set_d third_mut write_b write_c }

// ---- names_sync_lazy_1

#[fxstruct(sync, lazy, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"), reader("look_"), writer("change_"))]
pub struct NSyncLazy1 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NSyncLazy1 {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NSyncLazy1: a a_mut b b_mut c c_mut change_b change_c clear_a clear_b clear_c clear_d clear_other clear_third d d_mut drop_b drop_c drop_third has_a has_b has_c has_d has_other has_third knows_b knows_c look_b look_c look_third other other_mut put_b put_c put_d read_a read_b read_c read_d read_other read_third ref_b_mut ref_c_mut ref_d_mut ref_third_mut set_a set_b set_c set_d set_other set_third the_b the_c the_d third third_mut write_a write_b write_c write_d write_other write_third }

// ---- names_sync_lazy_2

#[fxstruct(sync, lazy("make_"), get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NSyncLazyPrefix {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NSyncLazyPrefix {
    fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    fn make_other(&self) -> i32 {
        i32::of(made(1))
    }
    fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    fn make_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NSyncLazyPrefix: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_b read_c read_third set_b set_c set_d third_mut write_b write_c }

// ---- names_sync_lock_0

#[fxstruct(sync, lock, get, get_mut, set, reader, writer)]
pub struct NSyncLock0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NSyncLock0: b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed read_b read_c read_d renamed set_b set_c set_d set_renamed write_b write_c write_d write_renamed }

// ---- names_sync_lock_1

#[fxstruct(sync, lock, get("the_"), get_mut("ref_"), set("put_"), reader("look_"), writer("change_"))]
pub struct NSyncLock1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NSyncLock1: a a_mut b b_mut c c_mut change_b change_c change_d change_renamed clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed look_b look_c look_d other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_sync_builder

#[fxstruct(sync, get, set, builder)]
pub struct NSyncBuilder0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NSyncBuilder0: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NSyncBuilder0Builder: b c d }

#[fxstruct(sync, get, set, builder("with_"))]
pub struct NSyncBuilder1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NSyncBuilder1: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NSyncBuilder1Builder: a b c d e f }

#[fxstruct(sync, get, set, builder("with_", into))]
pub struct NSyncBuilder2 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NSyncBuilder2: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NSyncBuilder2Builder: a b c d e f }

// ---- names_async_ordinary_0

#[fxstruct(r#async, get, get_mut, set)]
pub struct NAsyncOrdinary0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncOrdinary0: b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed read_a read_b read_c read_d read_other read_renamed renamed set_b set_c set_d set_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_async_ordinary_1

#[fxstruct(r#async, get("the_"), get_mut("ref_"), set("put_"))]
pub struct NAsyncOrdinary1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncOrdinary1: a a_mut b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_async_optional_0

#[fxstruct(r#async, optional, get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NAsyncOptional0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncOptional0: b b_mut c c_mut clear_b clear_c clear_d d d_mut has_b has_c has_d has_renamed read_b read_c read_d renamed set_b set_c set_d set_renamed write_b write_c write_d write_renamed }

// ---- names_async_optional_1

#[fxstruct(r#async, optional, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"), reader("look_"), writer("change_"))]
pub struct NAsyncOptional1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), clearer("z_clearer"), predicate("z_predicate"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), predicate("w_predicate"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncOptional1: a a_mut b b_mut c c_mut change_b change_c change_d change_renamed clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut drop_b drop_c drop_d has_a has_b has_c has_d has_other has_renamed knows_b knows_c knows_d knows_renamed look_b look_c look_d other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_async_lazy_0

#[fxstruct(r#async, lazy, get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NAsyncLazy0 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NAsyncLazy0 {
    async fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    async fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NAsyncLazy0: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_b read_c read_third set_b set_c set_d third_mut write_b write_c }

// ---- names_async_lazy_1

#[fxstruct(r#async, lazy, get("the_"), get_mut("ref_"), set("put_"), clearer("drop_"), predicate("knows_"), reader("look_"), writer("change_"))]
pub struct NAsyncLazy1 {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NAsyncLazy1 {
    async fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn build_other(&self) -> i32 {
        i32::of(made(1))
    }
    async fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    async fn build_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NAsyncLazy1: a a_mut b b_mut c c_mut change_b change_c clear_a clear_b clear_c clear_d clear_other clear_third d d_mut drop_b drop_c drop_third has_a has_b has_c has_d has_other has_third knows_b knows_c look_b look_c look_third other other_mut put_b put_c put_d read_a read_b read_c read_d read_other read_third ref_b_mut ref_c_mut ref_d_mut ref_third_mut set_a set_b set_c set_d set_other set_third the_b the_c the_d third third_mut write_a write_b write_c write_d write_other write_third }

// ---- names_async_lazy_2

#[fxstruct(r#async, lazy("make_"), get, get_mut, set, clearer, predicate, reader, writer)]
pub struct NAsyncLazyPrefix {
    #[fieldx(lazy("make_a"))]
    a: i32,
    #[fieldx(rename("other"))]
    b: i32,
    #[fieldx(rename("third"), lazy("third_one"), get_mut("z_get_mut"), clearer("z_clearer"), reader("z_reader"))]
    c: i32,
    #[fieldx(get("w_get"), get_mut("w_get_mut"), set("w_set"))]
    d: i32,
}
impl NAsyncLazyPrefix {
    async fn make_a(&self) -> i32 {
        i32::of(made(0))
    }
    async fn make_other(&self) -> i32 {
        i32::of(made(1))
    }
    async fn third_one(&self) -> i32 {
        i32::of(made(2))
    }
    async fn make_d(&self) -> i32 {
        i32::of(made(3))
    }
}
lacks! { NAsyncLazyPrefix: b b_mut c c_mut clear_b clear_c clear_third d d_mut has_b has_c read_b read_c read_third set_b set_c set_d third_mut write_b write_c }

// ---- names_async_lock_0

#[fxstruct(r#async, lock, get, get_mut, set, reader, writer)]
pub struct NAsyncLock0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncLock0: b b_mut c c_mut clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed read_b read_c read_d renamed set_b set_c set_d set_renamed write_b write_c write_d write_renamed }

// ---- names_async_lock_1

#[fxstruct(r#async, lock, get("the_"), get_mut("ref_"), set("put_"), reader("look_"), writer("change_"))]
pub struct NAsyncLock1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(get("z_get"), get_mut("z_get_mut"), set("z_set"), reader("z_reader"), writer("z_writer"), default(init(2)))]
    c: i32,
    #[fieldx(rename("renamed"), get("w_get"), set("w_set"), writer("w_writer"), default(init(3)))]
    d: i32,
}
lacks! { NAsyncLock1: a a_mut b b_mut c c_mut change_b change_c change_d change_renamed clear_a clear_b clear_c clear_d clear_other clear_renamed d d_mut has_a has_b has_c has_d has_other has_renamed look_b look_c look_d other other_mut put_b put_c put_d put_renamed read_a read_b read_c read_d read_other read_renamed ref_b_mut ref_c_mut ref_d_mut renamed renamed_mut set_a set_b set_c set_d set_other set_renamed the_b the_c the_d the_renamed write_a write_b write_c write_d write_other write_renamed }

// ---- names_async_builder

#[fxstruct(r#async, get, set, builder)]
pub struct NAsyncBuilder0 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NAsyncBuilder0: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NAsyncBuilder0Builder: b c d }

#[fxstruct(r#async, get, set, builder("with_"))]
pub struct NAsyncBuilder1 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NAsyncBuilder1: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NAsyncBuilder1Builder: a b c d e f }

#[fxstruct(r#async, get, set, builder("with_", into))]
pub struct NAsyncBuilder2 {
    a: i32,
    #[fieldx(rename("other"), default(init(1)))]
    b: i32,
    #[fieldx(builder("third"), default(init(2)))]
    c: i32,
    #[fieldx(rename("fourth"), builder("give_it"), default(init(3)))]
    d: i32,
    #[fieldx(builder(into), get("fifth"), default(init(4)))]
    e: i32,
    #[fieldx(set("six"), default(init(5)))]
    f: i32,
}
lacks! { NAsyncBuilder2: a_mut b b_mut c_mut clear_a clear_b clear_c clear_d clear_e clear_f clear_fourth clear_other d d_mut e e_mut f_mut fourth_mut has_a has_b has_c has_d has_e has_f has_fourth has_other other_mut read_a read_b read_c read_d read_e read_f read_fourth read_other set_b set_d set_f write_a write_b write_c write_d write_e write_f write_fourth write_other }
lacks! { NAsyncBuilder2Builder: a b c d e f }

// ---- names_swapped

#[fxstruct(mode(plain))]
pub struct NSwapped {
    #[fieldx(get("b"), set("set_b"))]
    a: i32,
    #[fieldx(get("a"), set("set_a"))]
    b: i32,
    #[fieldx(rename("d"), get, set)]
    c: i32,
    #[fieldx(rename("c"), get, set)]
    d: i32,
}
lacks! { NSwapped: a_mut b_mut c_mut clear_a clear_b clear_c clear_d d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(sync, lock, clearer)]
pub struct NSwappedSync {
    #[fieldx(get("b"), set("set_b"), clearer("clear_b"))]
    a: i32,
    #[fieldx(get("a"), set("set_a"), clearer("clear_a"))]
    b: i32,
    #[fieldx(rename("d"), get, set)]
    c: i32,
    #[fieldx(rename("c"), get, set)]
    d: i32,
}
lacks! { NSwappedSync: a_mut b_mut c_mut d_mut has_a has_b has_c has_d read_a read_b read_c read_d write_a write_b write_c write_d }

#[fxstruct(mode(plain), get, set)]
pub struct NSwappedLazy {
    #[fieldx(lazy("build_b"))]
    a: i32,
    #[fieldx(lazy("build_a"))]
    b: i32,
}
impl NSwappedLazy {
    fn build_b(&self) -> i32 {
        i32::of(made(0))
    }
    fn build_a(&self) -> i32 {
        i32::of(made(1))
    }
}
lacks! { NSwappedLazy: a_mut b_mut clear_a clear_b has_a has_b read_a read_b write_a write_b }

#[fxstruct(mode(plain), get, builder)]
pub struct NSwappedBuilder {
    #[fieldx(builder("b"))]
    a: i32,
    #[fieldx(builder("a"))]
    b: i32,
}
lacks! { NSwappedBuilder: a_mut b_mut clear_a clear_b has_a has_b read_a read_b set_a set_b write_a write_b }

/// What is too much for the solver: the names and the types only, the behaviour is up to other properties
#[cfg(kani)]
mod compiled {
    use super::*;
    use std::mem::ManuallyDrop;

    fn names_async_lazy_0() {
        {
            fn see0(s: &mut NAsyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.read_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.third()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.z_reader()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.w_get()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.read_d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncLazy0::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_a()).store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_other(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.other_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_other()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_other()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_third(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.z_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_third()).store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_clearer()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.w_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.w_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_d()).store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
    }
    fn names_async_lazy_1() {
        {
            fn see0(s: &mut NAsyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.the_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.look_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.the_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.look_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.the_third()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.z_reader()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.w_get()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.look_d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncLazy1::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.put_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.ref_a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.change_a()).store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.put_other(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.ref_other_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.change_other()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_other()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.put_third(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.z_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.change_third()).store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_clearer()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.w_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.w_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.change_d()).store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
    }
    fn names_async_lazy_2() {
        {
            fn see0(s: &mut NAsyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: ARd<i32> = run_now(s.read_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.third()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: ARd<i32> = run_now(s.z_reader()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.w_get()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: ARd<i32> = run_now(s.read_d()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncLazyPrefix::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_a()).store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_other(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.other_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_other()).store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_other()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_third(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.z_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_third()).store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_clearer()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.w_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AMWr<i32> = run_now(s.w_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.write_d()).store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_d()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
    }
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_ordinary_0() {
        start();
        {
            fn see(s: &mut NPlainOrdinary0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainOrdinary0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_ordinary_1() {
        start();
        {
            fn see(s: &mut NPlainOrdinary1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainOrdinary1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_optional_0() {
        start();
        {
            fn see(s: &mut NPlainOptional0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainOptional0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.other_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_renamed(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_optional_1() {
        start();
        {
            fn see(s: &mut NPlainOptional1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.the_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.the_other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: &Option<i32> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainOptional1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.put_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.ref_a_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.put_other(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.ref_other_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_other(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut Option<i32> = s.ref_renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_renamed(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_lazy_0() {
        start();
        {
            fn see(s: &mut NPlainLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainLazy0::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_third(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_lazy_1() {
        start();
        {
            fn see(s: &mut NPlainLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.knows_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.the_third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.knows_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainLazy1::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.put_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.put_other(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_other(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.put_third(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.drop_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_lazy_2() {
        start();
        {
            fn see(s: &mut NPlainLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: &i32 = s.third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainLazyPrefix::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_third(exactly::<_>(x)); r.as_ref().map(num) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_inner_mut_0() {
        start();
        {
            fn see(s: &mut NPlainInnerMut0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainInnerMut0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.other_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_renamed(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_inner_mut_1() {
        start();
        {
            fn see(s: &mut NPlainInnerMut1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.the_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.the_other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Ref<Option<i32>> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NPlainInnerMut1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.ref_a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.ref_other_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: RefMut<Option<i32>> = s.ref_renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_renamed(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_plain_builder() {
        start();
        {
            fn see(s: &mut NPlainBuilder0, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NPlainBuilder0::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.e(Conv(init(4)));
            let b = b.f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NPlainBuilder1, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NPlainBuilder1::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NPlainBuilder2, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NPlainBuilder2::builder();
            let b = b.with_a(Conv(init(0)));
            let b = b.with_other(Conv(init(1)));
            let b = b.third(Conv(init(2)));
            let b = b.give_it(Conv(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_ordinary_0() {
        start();
        {
            fn see(s: &mut NSyncOrdinary0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncOrdinary0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_ordinary_1() {
        start();
        {
            fn see(s: &mut NSyncOrdinary1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncOrdinary1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_optional_0() {
        start();
        {
            fn see(s: &mut NSyncOptional0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.z_reader(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.read_renamed(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncOptional0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_a(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.other_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.write_other(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.z_writer(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.w_writer(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_renamed(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_optional_1() {
        start();
        {
            fn see(s: &mut NSyncOptional1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.the_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.look_a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.the_other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.look_other(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!(s.z_predicate() == v[2].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.z_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.z_reader(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!(s.w_predicate() == v[3].is_some(), "wrong predicate");
                assert!({ let r: Rd<Option<i32>> = s.w_get(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.look_renamed(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncOptional1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.ref_a_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.change_a(); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.ref_other_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.change_other(); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.z_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.z_get_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.z_writer(); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.ref_renamed_mut(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<Option<i32>> = s.w_writer(); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_renamed(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_lazy_0() {
        start();
        {
            fn see0(s: &mut NSyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NSyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.read_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NSyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.z_reader(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NSyncLazy0, v: &mut [Option<i32>; 4]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.read_d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncLazy0::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_a().store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_other().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_third(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_third().store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_d().store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_lazy_1() {
        start();
        {
            fn see0(s: &mut NSyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.look_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NSyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.look_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NSyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.the_third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.z_reader(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NSyncLazy1, v: &mut [Option<i32>; 4]) {
                assert!(s.knows_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.look_d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncLazy1::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.change_a().store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.change_other().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.put_third(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.change_third().store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.change_d().store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.drop_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_lazy_2() {
        start();
        {
            fn see0(s: &mut NSyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_a() == v[0].is_some(), "wrong predicate");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: MRd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NSyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_other() == v[1].is_some(), "wrong predicate");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: MRd<i32> = s.read_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NSyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_third() == v[2].is_some(), "wrong predicate");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.third(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                v[2] = Some(v[2].unwrap_or(made(2)));
                assert!({ let r: MRd<i32> = s.z_reader(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NSyncLazyPrefix, v: &mut [Option<i32>; 4]) {
                assert!(s.has_d() == v[3].is_some(), "wrong predicate");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                v[3] = Some(v[3].unwrap_or(made(3)));
                assert!({ let r: MRd<i32> = s.read_d(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncLazyPrefix::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            v[0] = Some(v[0].unwrap_or(made(0)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_a().store(i32::of(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_other(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            v[1] = Some(v[1].unwrap_or(made(1)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_other().store(i32::of(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_other(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_third(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            v[2] = Some(v[2].unwrap_or(made(2)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_third().store(i32::of(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.z_clearer(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.w_set(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            v[3] = Some(v[3].unwrap_or(made(3)));
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: MWr<i32> = s.w_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.write_d().store(i32::of(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_lock_0() {
        start();
        {
            fn see(s: &mut NSyncLock0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.z_reader(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.read_renamed(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncLock0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.write_other(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.z_writer(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.w_writer(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_lock_1() {
        start();
        {
            fn see(s: &mut NSyncLock1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<i32> = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.look_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.look_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.z_reader(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: Rd<i32> = s.look_renamed(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSyncLock1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.put_a(exactly::<_>(x)); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.change_a(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.put_other(exactly::<_>(x)); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.change_other(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.z_writer(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.ref_renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: Wr<i32> = s.w_writer(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_sync_builder() {
        start();
        {
            fn see(s: &mut NSyncBuilder0, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NSyncBuilder0::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.e(Conv(init(4)));
            let b = b.f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NSyncBuilder1, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NSyncBuilder1::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NSyncBuilder2, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NSyncBuilder2::builder();
            let b = b.with_a(Conv(init(0)));
            let b = b.with_other(Conv(init(1)));
            let b = b.third(Conv(init(2)));
            let b = b.give_it(Conv(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_ordinary_0() {
        start();
        {
            fn see(s: &mut NAsyncOrdinary0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncOrdinary0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_ordinary_1() {
        start();
        {
            fn see(s: &mut NAsyncOrdinary1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.the_a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.the_other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.z_get(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.w_get(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncOrdinary1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_a_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.put_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_other_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.z_set(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.z_get_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.w_set(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let mut r: &mut i32 = s.ref_renamed_mut(); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_optional_0() {
        start();
        {
            fn see0(s: &mut NAsyncOptional0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_a()) == v[0].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncOptional0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.has_other()) == v[1].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.other()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_other()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncOptional0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.z_predicate()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.z_get()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.z_reader()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncOptional0, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.w_predicate()) == v[3].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.w_get()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.read_renamed()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncOptional0::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.a_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_a()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.set_other(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.other_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.write_other()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_other()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.z_get_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.z_writer()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_clearer()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.w_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.renamed_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.w_writer()); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.clear_renamed()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_optional_1() {
        start();
        {
            fn see0(s: &mut NAsyncOptional1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.knows_a()) == v[0].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.the_a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.look_a()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncOptional1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.knows_other()) == v[1].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.the_other()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.look_other()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncOptional1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.z_predicate()) == v[2].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.z_get()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.z_reader()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncOptional1, v: &mut [Option<i32>; 4]) {
                assert!(run_now(s.w_predicate()) == v[3].is_some(), "wrong predicate");
                assert!({ let r: ARd<Option<i32>> = run_now(s.w_get()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
                assert!({ let r: ARd<Option<i32>> = run_now(s.look_renamed()); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncOptional1::new());
            let s = &mut *s;
            let v = &mut [None, Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.put_a(exactly::<_>(x))); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.ref_a_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.change_a()); r.replace(i32::of(x)).as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_a()); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.put_other(exactly::<_>(x))); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.ref_other_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.change_other()); r.replace(i32::of(x)).as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_other()); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.z_get_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.z_writer()); r.replace(i32::of(x)).as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.z_clearer()); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.w_set(exactly::<_>(x))); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.ref_renamed_mut()); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<Option<i32>> = run_now(s.w_writer()); r.replace(i32::of(x)).as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = run_now(s.drop_renamed()); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_lock_0() {
        start();
        {
            fn see0(s: &mut NAsyncLock0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncLock0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncLock0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.z_get()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.z_reader()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncLock0, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.w_get()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.read_renamed()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncLock0::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.set_other(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.other_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.write_other()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.z_set(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.z_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.z_writer()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.w_set(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.renamed_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.w_writer()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_lock_1() {
        start();
        {
            fn see0(s: &mut NAsyncLock1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.the_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.look_a()); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
            }
            fn see1(s: &mut NAsyncLock1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.the_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.look_other()); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            fn see2(s: &mut NAsyncLock1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.z_get()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.z_reader()); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
            }
            fn see3(s: &mut NAsyncLock1, v: &mut [Option<i32>; 4]) {
                assert!({ let r: ARd<i32> = run_now(s.w_get()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: ARd<i32> = run_now(s.look_renamed()); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NAsyncLock1::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(init(1)), Some(init(2)), Some(init(3))];
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.put_a(exactly::<_>(x))); Some(num(&r)) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.ref_a_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.change_a()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see0(s, v);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.put_other(exactly::<_>(x))); Some(num(&r)) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.ref_other_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.change_other()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see1(s, v);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.z_set(exactly::<_>(x))); Some(num(&r)) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.z_get_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.z_writer()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see2(s, v);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: i32 = run_now(s.w_set(exactly::<_>(x))); Some(num(&r)) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.ref_renamed_mut()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let mut r: AWr<i32> = run_now(s.w_writer()); let r: &mut i32 = &mut r; Some(num(&std::mem::replace(r, i32::of(x)))) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see3(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_async_builder() {
        start();
        {
            fn see(s: &mut NAsyncBuilder0, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NAsyncBuilder0::builder();
            let b = b.a(exactly::<_>(init(0)));
            let b = b.other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.e(Conv(init(4)));
            let b = b.f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NAsyncBuilder1, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NAsyncBuilder1::builder();
            let b = b.with_a(exactly::<_>(init(0)));
            let b = b.with_other(exactly::<_>(init(1)));
            let b = b.third(exactly::<_>(init(2)));
            let b = b.give_it(exactly::<_>(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(exactly::<_>(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NAsyncBuilder2, v: &mut [Option<i32>; 6]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.other(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.fourth(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
                assert!({ let r: &i32 = s.fifth(); { let o: &i32 = &r; Some(num(o)) } } == v[4], "a wrong value is read");
                assert!({ let r: &i32 = s.f(); { let o: &i32 = &r; Some(num(o)) } } == v[5], "a wrong value is read");
            }
            let b = NAsyncBuilder2::builder();
            let b = b.with_a(Conv(init(0)));
            let b = b.with_other(Conv(init(1)));
            let b = b.third(Conv(init(2)));
            let b = b.give_it(Conv(init(3)));
            let b = b.with_e(Conv(init(4)));
            let b = b.with_f(Conv(init(5)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1)), Some(init(2)), Some(init(3)), Some(init(4)), Some(init(5))];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_other(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_fourth(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_e(exactly::<_>(x)); Some(num(&r)) } == v[4], "a wrong previous value");
            v[4] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.six(exactly::<_>(x)); Some(num(&r)) } == v[5], "a wrong previous value");
            v[5] = Some(x);
            see(s, v);
        }
        cover!(true, "reachable");
    }

    #[kani::proof]
    #[kani::unwind(3)]
    pub fn names_swapped() {
        start();
        {
            fn see(s: &mut NSwapped, v: &mut [Option<i32>; 4]) {
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
                assert!({ let r: &i32 = s.d(); { let o: &i32 = &r; Some(num(o)) } } == v[2], "a wrong value is read");
                assert!({ let r: &i32 = s.c(); { let o: &i32 = &r; Some(num(o)) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSwapped::new());
            let s = &mut *s;
            let v = &mut [Some(0), Some(0), Some(0), Some(0)];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_b(exactly::<_>(x)); Some(num(&r)) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_a(exactly::<_>(x)); Some(num(&r)) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_d(exactly::<_>(x)); Some(num(&r)) } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: i32 = s.set_c(exactly::<_>(x)); Some(num(&r)) } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NSwappedSync, v: &mut [Option<i32>; 4]) {
                assert!({ let r: Rd<Option<i32>> = s.b(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[0], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.a(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[1], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.d(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[2], "a wrong value is read");
                assert!({ let r: Rd<Option<i32>> = s.c(); { let o: &Option<i32> = &r; o.as_ref().map(num) } } == v[3], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSwappedSync::new());
            let s = &mut *s;
            let v = &mut [None, None, None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_b(); r.as_ref().map(num) } } == v[0], "a wrong value is cleared");
            v[0] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_a(); r.as_ref().map(num) } } == v[1], "a wrong value is cleared");
            v[1] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_d(exactly::<_>(x)); r.as_ref().map(num) } } == v[2], "a wrong previous value");
            v[2] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_d(); r.as_ref().map(num) } } == v[2], "a wrong value is cleared");
            v[2] = None;
            see(s, v);
            let x: i32 = any();
            assert!({ let s = &*s; { let r: Option<i32> = s.set_c(exactly::<_>(x)); r.as_ref().map(num) } } == v[3], "a wrong previous value");
            v[3] = Some(x);
            see(s, v);
            assert!({ let s = &*s; { let r: Option<i32> = s.clear_c(); r.as_ref().map(num) } } == v[3], "a wrong value is cleared");
            v[3] = None;
            see(s, v);
        }
        {
            fn see(s: &mut NSwappedLazy, v: &mut [Option<i32>; 2]) {
                v[0] = Some(v[0].unwrap_or(made(0)));
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                v[1] = Some(v[1].unwrap_or(made(1)));
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            let mut s = ManuallyDrop::new(NSwappedLazy::new());
            let s = &mut *s;
            let v = &mut [None, None];
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_a(exactly::<_>(x)); r.as_ref().map(num) } == v[0], "a wrong previous value");
            v[0] = Some(x);
            see(s, v);
            let x: i32 = any();
            assert!({ let r: Option<i32> = s.set_b(exactly::<_>(x)); r.as_ref().map(num) } == v[1], "a wrong previous value");
            v[1] = Some(x);
            see(s, v);
        }
        {
            fn see(s: &mut NSwappedBuilder, v: &mut [Option<i32>; 2]) {
                assert!({ let r: &i32 = s.a(); { let o: &i32 = &r; Some(num(o)) } } == v[0], "a wrong value is read");
                assert!({ let r: &i32 = s.b(); { let o: &i32 = &r; Some(num(o)) } } == v[1], "a wrong value is read");
            }
            let b = NSwappedBuilder::builder();
            let b = b.b(exactly::<_>(init(0)));
            let b = b.a(exactly::<_>(init(1)));
            let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });
            let s = &mut *s;
            let v = &mut [Some(init(0)), Some(init(1))];
            see(s, v);
        }
        cover!(true, "reachable");
    }

}
