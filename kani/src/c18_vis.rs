// Made by tools/gen_matrix.py
use crate::{common::*, lacks, matrix::*};
use fieldx::{fxstruct, Ref, RefMut};

pub mod outer {
    use super::*;
    pub mod inner {
        use super::*;
        #[fxstruct(get, set, get_mut, clearer, predicate, builder)]
        pub struct V0 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV0() {
            let _ = V0::a; let _ = V0::set_a; let _ = V0::a_mut; let _ = V0::clear_a; let _ = V0::has_a; let _ = V0Builder::a; let _ = V0::b; let _ = V0::set_b; let _ = V0::b_mut; let _ = V0::clear_b; let _ = V0::has_b; let _ = V0Builder::b; let _ = V0::c; let _ = V0::set_c; let _ = V0::c_mut; let _ = V0::clear_c; let _ = V0::has_c; let _ = V0Builder::c; let _ = V0::d; let _ = V0::set_d; let _ = V0::d_mut; let _ = V0::clear_d; let _ = V0::has_d; let _ = V0Builder::d; let _ = V0::e; let _ = V0::set_e; let _ = V0::e_mut; let _ = V0::clear_e; let _ = V0::has_e; let _ = V0Builder::e; let _ = V0::f; let _ = V0::set_f; let _ = V0::f_mut; let _ = V0::clear_f; let _ = V0::has_f; let _ = V0Builder::f; let _ = V0::g; let _ = V0::set_g; let _ = V0::g_mut; let _ = V0::clear_g; let _ = V0::has_g; let _ = V0Builder::g; let _ = V0::h; let _ = V0::set_h; let _ = V0::h_mut; let _ = V0::clear_h; let _ = V0::has_h; let _ = V0Builder::h; let _ = V0::i; let _ = V0::set_i; let _ = V0::i_mut; let _ = V0::clear_i; let _ = V0::has_i; let _ = V0Builder::i; let _ = V0::builder;
        }
        #[fxstruct(get(private), set(private), get_mut(private), clearer(private), predicate(private), builder(private))]
        pub struct V1 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV1() {
            let _ = V1::a; let _ = V1::set_a; let _ = V1::a_mut; let _ = V1::clear_a; let _ = V1::has_a; let _ = V1Builder::a; let _ = V1::b; let _ = V1::set_b; let _ = V1::b_mut; let _ = V1::clear_b; let _ = V1::has_b; let _ = V1Builder::b; let _ = V1::c; let _ = V1::set_c; let _ = V1::c_mut; let _ = V1::clear_c; let _ = V1::has_c; let _ = V1Builder::c; let _ = V1::d; let _ = V1::set_d; let _ = V1::d_mut; let _ = V1::clear_d; let _ = V1::has_d; let _ = V1Builder::d; let _ = V1::e; let _ = V1::set_e; let _ = V1::e_mut; let _ = V1::clear_e; let _ = V1::has_e; let _ = V1Builder::e; let _ = V1::f; let _ = V1::set_f; let _ = V1::f_mut; let _ = V1::clear_f; let _ = V1::has_f; let _ = V1Builder::f; let _ = V1::g; let _ = V1::set_g; let _ = V1::g_mut; let _ = V1::clear_g; let _ = V1::has_g; let _ = V1Builder::g; let _ = V1::h; let _ = V1::set_h; let _ = V1::h_mut; let _ = V1::clear_h; let _ = V1::has_h; let _ = V1Builder::h; let _ = V1::i; let _ = V1::set_i; let _ = V1::i_mut; let _ = V1::clear_i; let _ = V1::has_i; let _ = V1Builder::i; let _ = V1::builder;
        }
        #[fxstruct(get(public), set(public), get_mut(public), clearer(public), predicate(public), builder(public))]
        pub struct V2 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV2() {
            let _ = V2::a; let _ = V2::set_a; let _ = V2::a_mut; let _ = V2::clear_a; let _ = V2::has_a; let _ = V2Builder::a; let _ = V2::b; let _ = V2::set_b; let _ = V2::b_mut; let _ = V2::clear_b; let _ = V2::has_b; let _ = V2Builder::b; let _ = V2::c; let _ = V2::set_c; let _ = V2::c_mut; let _ = V2::clear_c; let _ = V2::has_c; let _ = V2Builder::c; let _ = V2::d; let _ = V2::set_d; let _ = V2::d_mut; let _ = V2::clear_d; let _ = V2::has_d; let _ = V2Builder::d; let _ = V2::e; let _ = V2::set_e; let _ = V2::e_mut; let _ = V2::clear_e; let _ = V2::has_e; let _ = V2Builder::e; let _ = V2::f; let _ = V2::set_f; let _ = V2::f_mut; let _ = V2::clear_f; let _ = V2::has_f; let _ = V2Builder::f; let _ = V2::g; let _ = V2::set_g; let _ = V2::g_mut; let _ = V2::clear_g; let _ = V2::has_g; let _ = V2Builder::g; let _ = V2::h; let _ = V2::set_h; let _ = V2::h_mut; let _ = V2::clear_h; let _ = V2::has_h; let _ = V2Builder::h; let _ = V2::i; let _ = V2::set_i; let _ = V2::i_mut; let _ = V2::clear_i; let _ = V2::has_i; let _ = V2Builder::i; let _ = V2::builder;
        }
        #[fxstruct(public, get, set, get_mut, clearer, predicate, builder)]
        pub struct V3 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV3() {
            let _ = V3::a; let _ = V3::set_a; let _ = V3::a_mut; let _ = V3::clear_a; let _ = V3::has_a; let _ = V3Builder::a; let _ = V3::b; let _ = V3::set_b; let _ = V3::b_mut; let _ = V3::clear_b; let _ = V3::has_b; let _ = V3Builder::b; let _ = V3::c; let _ = V3::set_c; let _ = V3::c_mut; let _ = V3::clear_c; let _ = V3::has_c; let _ = V3Builder::c; let _ = V3::d; let _ = V3::set_d; let _ = V3::d_mut; let _ = V3::clear_d; let _ = V3::has_d; let _ = V3Builder::d; let _ = V3::e; let _ = V3::set_e; let _ = V3::e_mut; let _ = V3::clear_e; let _ = V3::has_e; let _ = V3Builder::e; let _ = V3::f; let _ = V3::set_f; let _ = V3::f_mut; let _ = V3::clear_f; let _ = V3::has_f; let _ = V3Builder::f; let _ = V3::g; let _ = V3::set_g; let _ = V3::g_mut; let _ = V3::clear_g; let _ = V3::has_g; let _ = V3Builder::g; let _ = V3::h; let _ = V3::set_h; let _ = V3::h_mut; let _ = V3::clear_h; let _ = V3::has_h; let _ = V3Builder::h; let _ = V3::i; let _ = V3::set_i; let _ = V3::i_mut; let _ = V3::clear_i; let _ = V3::has_i; let _ = V3Builder::i; let _ = V3::builder;
        }
        #[fxstruct(public, get(private), set(private), get_mut(private), clearer(private), predicate(private), builder(private))]
        pub struct V4 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV4() {
            let _ = V4::a; let _ = V4::set_a; let _ = V4::a_mut; let _ = V4::clear_a; let _ = V4::has_a; let _ = V4Builder::a; let _ = V4::b; let _ = V4::set_b; let _ = V4::b_mut; let _ = V4::clear_b; let _ = V4::has_b; let _ = V4Builder::b; let _ = V4::c; let _ = V4::set_c; let _ = V4::c_mut; let _ = V4::clear_c; let _ = V4::has_c; let _ = V4Builder::c; let _ = V4::d; let _ = V4::set_d; let _ = V4::d_mut; let _ = V4::clear_d; let _ = V4::has_d; let _ = V4Builder::d; let _ = V4::e; let _ = V4::set_e; let _ = V4::e_mut; let _ = V4::clear_e; let _ = V4::has_e; let _ = V4Builder::e; let _ = V4::f; let _ = V4::set_f; let _ = V4::f_mut; let _ = V4::clear_f; let _ = V4::has_f; let _ = V4Builder::f; let _ = V4::g; let _ = V4::set_g; let _ = V4::g_mut; let _ = V4::clear_g; let _ = V4::has_g; let _ = V4Builder::g; let _ = V4::h; let _ = V4::set_h; let _ = V4::h_mut; let _ = V4::clear_h; let _ = V4::has_h; let _ = V4Builder::h; let _ = V4::i; let _ = V4::set_i; let _ = V4::i_mut; let _ = V4::clear_i; let _ = V4::has_i; let _ = V4Builder::i; let _ = V4::builder;
        }
        #[fxstruct(public, get(public), set(public), get_mut(public), clearer(public), predicate(public), builder(public))]
        pub struct V5 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV5() {
            let _ = V5::a; let _ = V5::set_a; let _ = V5::a_mut; let _ = V5::clear_a; let _ = V5::has_a; let _ = V5Builder::a; let _ = V5::b; let _ = V5::set_b; let _ = V5::b_mut; let _ = V5::clear_b; let _ = V5::has_b; let _ = V5Builder::b; let _ = V5::c; let _ = V5::set_c; let _ = V5::c_mut; let _ = V5::clear_c; let _ = V5::has_c; let _ = V5Builder::c; let _ = V5::d; let _ = V5::set_d; let _ = V5::d_mut; let _ = V5::clear_d; let _ = V5::has_d; let _ = V5Builder::d; let _ = V5::e; let _ = V5::set_e; let _ = V5::e_mut; let _ = V5::clear_e; let _ = V5::has_e; let _ = V5Builder::e; let _ = V5::f; let _ = V5::set_f; let _ = V5::f_mut; let _ = V5::clear_f; let _ = V5::has_f; let _ = V5Builder::f; let _ = V5::g; let _ = V5::set_g; let _ = V5::g_mut; let _ = V5::clear_g; let _ = V5::has_g; let _ = V5Builder::g; let _ = V5::h; let _ = V5::set_h; let _ = V5::h_mut; let _ = V5::clear_h; let _ = V5::has_h; let _ = V5Builder::h; let _ = V5::i; let _ = V5::set_i; let _ = V5::i_mut; let _ = V5::clear_i; let _ = V5::has_i; let _ = V5Builder::i; let _ = V5::builder;
        }
        #[fxstruct(private, get, set, get_mut, clearer, predicate, builder)]
        pub struct V6 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV6() {
            let _ = V6::a; let _ = V6::set_a; let _ = V6::a_mut; let _ = V6::clear_a; let _ = V6::has_a; let _ = V6Builder::a; let _ = V6::b; let _ = V6::set_b; let _ = V6::b_mut; let _ = V6::clear_b; let _ = V6::has_b; let _ = V6Builder::b; let _ = V6::c; let _ = V6::set_c; let _ = V6::c_mut; let _ = V6::clear_c; let _ = V6::has_c; let _ = V6Builder::c; let _ = V6::d; let _ = V6::set_d; let _ = V6::d_mut; let _ = V6::clear_d; let _ = V6::has_d; let _ = V6Builder::d; let _ = V6::e; let _ = V6::set_e; let _ = V6::e_mut; let _ = V6::clear_e; let _ = V6::has_e; let _ = V6Builder::e; let _ = V6::f; let _ = V6::set_f; let _ = V6::f_mut; let _ = V6::clear_f; let _ = V6::has_f; let _ = V6Builder::f; let _ = V6::g; let _ = V6::set_g; let _ = V6::g_mut; let _ = V6::clear_g; let _ = V6::has_g; let _ = V6Builder::g; let _ = V6::h; let _ = V6::set_h; let _ = V6::h_mut; let _ = V6::clear_h; let _ = V6::has_h; let _ = V6Builder::h; let _ = V6::i; let _ = V6::set_i; let _ = V6::i_mut; let _ = V6::clear_i; let _ = V6::has_i; let _ = V6Builder::i; let _ = V6::builder;
        }
        #[fxstruct(private, get(private), set(private), get_mut(private), clearer(private), predicate(private), builder(private))]
        pub struct V7 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV7() {
            let _ = V7::a; let _ = V7::set_a; let _ = V7::a_mut; let _ = V7::clear_a; let _ = V7::has_a; let _ = V7Builder::a; let _ = V7::b; let _ = V7::set_b; let _ = V7::b_mut; let _ = V7::clear_b; let _ = V7::has_b; let _ = V7Builder::b; let _ = V7::c; let _ = V7::set_c; let _ = V7::c_mut; let _ = V7::clear_c; let _ = V7::has_c; let _ = V7Builder::c; let _ = V7::d; let _ = V7::set_d; let _ = V7::d_mut; let _ = V7::clear_d; let _ = V7::has_d; let _ = V7Builder::d; let _ = V7::e; let _ = V7::set_e; let _ = V7::e_mut; let _ = V7::clear_e; let _ = V7::has_e; let _ = V7Builder::e; let _ = V7::f; let _ = V7::set_f; let _ = V7::f_mut; let _ = V7::clear_f; let _ = V7::has_f; let _ = V7Builder::f; let _ = V7::g; let _ = V7::set_g; let _ = V7::g_mut; let _ = V7::clear_g; let _ = V7::has_g; let _ = V7Builder::g; let _ = V7::h; let _ = V7::set_h; let _ = V7::h_mut; let _ = V7::clear_h; let _ = V7::has_h; let _ = V7Builder::h; let _ = V7::i; let _ = V7::set_i; let _ = V7::i_mut; let _ = V7::clear_i; let _ = V7::has_i; let _ = V7Builder::i; let _ = V7::builder;
        }
        #[fxstruct(private, get(public), set(public), get_mut(public), clearer(public), predicate(public), builder(public))]
        pub struct V8 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV8() {
            let _ = V8::a; let _ = V8::set_a; let _ = V8::a_mut; let _ = V8::clear_a; let _ = V8::has_a; let _ = V8Builder::a; let _ = V8::b; let _ = V8::set_b; let _ = V8::b_mut; let _ = V8::clear_b; let _ = V8::has_b; let _ = V8Builder::b; let _ = V8::c; let _ = V8::set_c; let _ = V8::c_mut; let _ = V8::clear_c; let _ = V8::has_c; let _ = V8Builder::c; let _ = V8::d; let _ = V8::set_d; let _ = V8::d_mut; let _ = V8::clear_d; let _ = V8::has_d; let _ = V8Builder::d; let _ = V8::e; let _ = V8::set_e; let _ = V8::e_mut; let _ = V8::clear_e; let _ = V8::has_e; let _ = V8Builder::e; let _ = V8::f; let _ = V8::set_f; let _ = V8::f_mut; let _ = V8::clear_f; let _ = V8::has_f; let _ = V8Builder::f; let _ = V8::g; let _ = V8::set_g; let _ = V8::g_mut; let _ = V8::clear_g; let _ = V8::has_g; let _ = V8Builder::g; let _ = V8::h; let _ = V8::set_h; let _ = V8::h_mut; let _ = V8::clear_h; let _ = V8::has_h; let _ = V8Builder::h; let _ = V8::i; let _ = V8::set_i; let _ = V8::i_mut; let _ = V8::clear_i; let _ = V8::has_i; let _ = V8Builder::i; let _ = V8::builder;
        }
        #[fxstruct(public(super), get, set, get_mut, clearer, predicate, builder)]
        pub struct V9 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV9() {
            let _ = V9::a; let _ = V9::set_a; let _ = V9::a_mut; let _ = V9::clear_a; let _ = V9::has_a; let _ = V9Builder::a; let _ = V9::b; let _ = V9::set_b; let _ = V9::b_mut; let _ = V9::clear_b; let _ = V9::has_b; let _ = V9Builder::b; let _ = V9::c; let _ = V9::set_c; let _ = V9::c_mut; let _ = V9::clear_c; let _ = V9::has_c; let _ = V9Builder::c; let _ = V9::d; let _ = V9::set_d; let _ = V9::d_mut; let _ = V9::clear_d; let _ = V9::has_d; let _ = V9Builder::d; let _ = V9::e; let _ = V9::set_e; let _ = V9::e_mut; let _ = V9::clear_e; let _ = V9::has_e; let _ = V9Builder::e; let _ = V9::f; let _ = V9::set_f; let _ = V9::f_mut; let _ = V9::clear_f; let _ = V9::has_f; let _ = V9Builder::f; let _ = V9::g; let _ = V9::set_g; let _ = V9::g_mut; let _ = V9::clear_g; let _ = V9::has_g; let _ = V9Builder::g; let _ = V9::h; let _ = V9::set_h; let _ = V9::h_mut; let _ = V9::clear_h; let _ = V9::has_h; let _ = V9Builder::h; let _ = V9::i; let _ = V9::set_i; let _ = V9::i_mut; let _ = V9::clear_i; let _ = V9::has_i; let _ = V9Builder::i; let _ = V9::builder;
        }
        #[fxstruct(public(super), get(private), set(private), get_mut(private), clearer(private), predicate(private), builder(private))]
        pub struct V10 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV10() {
            let _ = V10::a; let _ = V10::set_a; let _ = V10::a_mut; let _ = V10::clear_a; let _ = V10::has_a; let _ = V10Builder::a; let _ = V10::b; let _ = V10::set_b; let _ = V10::b_mut; let _ = V10::clear_b; let _ = V10::has_b; let _ = V10Builder::b; let _ = V10::c; let _ = V10::set_c; let _ = V10::c_mut; let _ = V10::clear_c; let _ = V10::has_c; let _ = V10Builder::c; let _ = V10::d; let _ = V10::set_d; let _ = V10::d_mut; let _ = V10::clear_d; let _ = V10::has_d; let _ = V10Builder::d; let _ = V10::e; let _ = V10::set_e; let _ = V10::e_mut; let _ = V10::clear_e; let _ = V10::has_e; let _ = V10Builder::e; let _ = V10::f; let _ = V10::set_f; let _ = V10::f_mut; let _ = V10::clear_f; let _ = V10::has_f; let _ = V10Builder::f; let _ = V10::g; let _ = V10::set_g; let _ = V10::g_mut; let _ = V10::clear_g; let _ = V10::has_g; let _ = V10Builder::g; let _ = V10::h; let _ = V10::set_h; let _ = V10::h_mut; let _ = V10::clear_h; let _ = V10::has_h; let _ = V10Builder::h; let _ = V10::i; let _ = V10::set_i; let _ = V10::i_mut; let _ = V10::clear_i; let _ = V10::has_i; let _ = V10Builder::i; let _ = V10::builder;
        }
        #[fxstruct(public(super), get(public), set(public), get_mut(public), clearer(public), predicate(public), builder(public))]
        pub struct V11 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV11() {
            let _ = V11::a; let _ = V11::set_a; let _ = V11::a_mut; let _ = V11::clear_a; let _ = V11::has_a; let _ = V11Builder::a; let _ = V11::b; let _ = V11::set_b; let _ = V11::b_mut; let _ = V11::clear_b; let _ = V11::has_b; let _ = V11Builder::b; let _ = V11::c; let _ = V11::set_c; let _ = V11::c_mut; let _ = V11::clear_c; let _ = V11::has_c; let _ = V11Builder::c; let _ = V11::d; let _ = V11::set_d; let _ = V11::d_mut; let _ = V11::clear_d; let _ = V11::has_d; let _ = V11Builder::d; let _ = V11::e; let _ = V11::set_e; let _ = V11::e_mut; let _ = V11::clear_e; let _ = V11::has_e; let _ = V11Builder::e; let _ = V11::f; let _ = V11::set_f; let _ = V11::f_mut; let _ = V11::clear_f; let _ = V11::has_f; let _ = V11Builder::f; let _ = V11::g; let _ = V11::set_g; let _ = V11::g_mut; let _ = V11::clear_g; let _ = V11::has_g; let _ = V11Builder::g; let _ = V11::h; let _ = V11::set_h; let _ = V11::h_mut; let _ = V11::clear_h; let _ = V11::has_h; let _ = V11Builder::h; let _ = V11::i; let _ = V11::set_i; let _ = V11::i_mut; let _ = V11::clear_i; let _ = V11::has_i; let _ = V11Builder::i; let _ = V11::builder;
        }
        #[fxstruct(get(private), set(public), get_mut(public(super)), clearer(private), predicate(public(crate)), builder(private), public(super))]
        pub struct V12 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV12() {
            let _ = V12::a; let _ = V12::set_a; let _ = V12::a_mut; let _ = V12::clear_a; let _ = V12::has_a; let _ = V12Builder::a; let _ = V12::b; let _ = V12::set_b; let _ = V12::b_mut; let _ = V12::clear_b; let _ = V12::has_b; let _ = V12Builder::b; let _ = V12::c; let _ = V12::set_c; let _ = V12::c_mut; let _ = V12::clear_c; let _ = V12::has_c; let _ = V12Builder::c; let _ = V12::d; let _ = V12::set_d; let _ = V12::d_mut; let _ = V12::clear_d; let _ = V12::has_d; let _ = V12Builder::d; let _ = V12::e; let _ = V12::set_e; let _ = V12::e_mut; let _ = V12::clear_e; let _ = V12::has_e; let _ = V12Builder::e; let _ = V12::f; let _ = V12::set_f; let _ = V12::f_mut; let _ = V12::clear_f; let _ = V12::has_f; let _ = V12Builder::f; let _ = V12::g; let _ = V12::set_g; let _ = V12::g_mut; let _ = V12::clear_g; let _ = V12::has_g; let _ = V12Builder::g; let _ = V12::h; let _ = V12::set_h; let _ = V12::h_mut; let _ = V12::clear_h; let _ = V12::has_h; let _ = V12Builder::h; let _ = V12::i; let _ = V12::set_i; let _ = V12::i_mut; let _ = V12::clear_i; let _ = V12::has_i; let _ = V12Builder::i; let _ = V12::builder;
        }
        #[fxstruct(get, set, get_mut, clearer, predicate, builder)]
        pub(super) struct V13 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV13() {
            let _ = V13::a; let _ = V13::set_a; let _ = V13::a_mut; let _ = V13::clear_a; let _ = V13::has_a; let _ = V13Builder::a; let _ = V13::b; let _ = V13::set_b; let _ = V13::b_mut; let _ = V13::clear_b; let _ = V13::has_b; let _ = V13Builder::b; let _ = V13::c; let _ = V13::set_c; let _ = V13::c_mut; let _ = V13::clear_c; let _ = V13::has_c; let _ = V13Builder::c; let _ = V13::d; let _ = V13::set_d; let _ = V13::d_mut; let _ = V13::clear_d; let _ = V13::has_d; let _ = V13Builder::d; let _ = V13::e; let _ = V13::set_e; let _ = V13::e_mut; let _ = V13::clear_e; let _ = V13::has_e; let _ = V13Builder::e; let _ = V13::f; let _ = V13::set_f; let _ = V13::f_mut; let _ = V13::clear_f; let _ = V13::has_f; let _ = V13Builder::f; let _ = V13::g; let _ = V13::set_g; let _ = V13::g_mut; let _ = V13::clear_g; let _ = V13::has_g; let _ = V13Builder::g; let _ = V13::h; let _ = V13::set_h; let _ = V13::h_mut; let _ = V13::clear_h; let _ = V13::has_h; let _ = V13Builder::h; let _ = V13::i; let _ = V13::set_i; let _ = V13::i_mut; let _ = V13::clear_i; let _ = V13::has_i; let _ = V13Builder::i; let _ = V13::builder;
        }
        #[fxstruct(get(private), set(private), get_mut(private), clearer(private), predicate(private), builder(private))]
        pub(super) struct V14 {
            a: i32,
            #[fieldx(default(init(1)))]
            b: i32,
            #[fieldx(private, default(init(2)))]
            c: i32,
            #[fieldx(public, default(init(3)))]
            d: i32,
            #[fieldx(public(super), default(init(4)))]
            e: i32,
            #[fieldx(get(private), set(public), default(init(5)))]
            f: i32,
            #[fieldx(private, get(public), clearer(public(super)), builder(public(crate)), default(init(6)))]
            g: i32,
            #[fieldx(public, get_mut(private), predicate(private), builder(private), default(init(7)))]
            h: i32,
            #[fieldx(get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private, default(init(0)))]
            i: i32,
        }
        fn ownV14() {
            let _ = V14::a; let _ = V14::set_a; let _ = V14::a_mut; let _ = V14::clear_a; let _ = V14::has_a; let _ = V14Builder::a; let _ = V14::b; let _ = V14::set_b; let _ = V14::b_mut; let _ = V14::clear_b; let _ = V14::has_b; let _ = V14Builder::b; let _ = V14::c; let _ = V14::set_c; let _ = V14::c_mut; let _ = V14::clear_c; let _ = V14::has_c; let _ = V14Builder::c; let _ = V14::d; let _ = V14::set_d; let _ = V14::d_mut; let _ = V14::clear_d; let _ = V14::has_d; let _ = V14Builder::d; let _ = V14::e; let _ = V14::set_e; let _ = V14::e_mut; let _ = V14::clear_e; let _ = V14::has_e; let _ = V14Builder::e; let _ = V14::f; let _ = V14::set_f; let _ = V14::f_mut; let _ = V14::clear_f; let _ = V14::has_f; let _ = V14Builder::f; let _ = V14::g; let _ = V14::set_g; let _ = V14::g_mut; let _ = V14::clear_g; let _ = V14::has_g; let _ = V14Builder::g; let _ = V14::h; let _ = V14::set_h; let _ = V14::h_mut; let _ = V14::clear_h; let _ = V14::has_h; let _ = V14Builder::h; let _ = V14::i; let _ = V14::set_i; let _ = V14::i_mut; let _ = V14::clear_i; let _ = V14::has_i; let _ = V14Builder::i; let _ = V14::builder;
        }
    }
    fn supV0() {
        use inner::*;
        let _ = V0::a; let _ = V0::set_a; let _ = V0::a_mut; let _ = V0::clear_a; let _ = V0::has_a; let _ = V0Builder::a; let _ = V0::b; let _ = V0::set_b; let _ = V0::b_mut; let _ = V0::clear_b; let _ = V0::has_b; let _ = V0Builder::b; let _ = V0::d; let _ = V0::set_d; let _ = V0::d_mut; let _ = V0::clear_d; let _ = V0::has_d; let _ = V0Builder::d; let _ = V0::e; let _ = V0::set_e; let _ = V0::e_mut; let _ = V0::clear_e; let _ = V0::has_e; let _ = V0Builder::e; let _ = V0::set_f; let _ = V0::f_mut; let _ = V0::clear_f; let _ = V0::has_f; let _ = V0Builder::f; let _ = V0::g; let _ = V0::clear_g; let _ = V0Builder::g; let _ = V0::h; let _ = V0::set_h; let _ = V0::clear_h; let _ = V0::i; let _ = V0::set_i; let _ = V0::builder;
    }
    lacks! { inner::V0: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV1() {
        use inner::*;
        let _ = V1::d; let _ = V1::set_d; let _ = V1::d_mut; let _ = V1::clear_d; let _ = V1::has_d; let _ = V1::e; let _ = V1::set_e; let _ = V1::e_mut; let _ = V1::clear_e; let _ = V1::has_e; let _ = V1::set_f; let _ = V1::g; let _ = V1::clear_g; let _ = V1::h; let _ = V1::set_h; let _ = V1::clear_h; let _ = V1::i; let _ = V1::set_i;
    }
    lacks! { inner::V1: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV2() {
        use inner::*;
        let _ = V2::a; let _ = V2::set_a; let _ = V2::a_mut; let _ = V2::clear_a; let _ = V2::has_a; let _ = V2Builder::a; let _ = V2::b; let _ = V2::set_b; let _ = V2::b_mut; let _ = V2::clear_b; let _ = V2::has_b; let _ = V2Builder::b; let _ = V2::d; let _ = V2::set_d; let _ = V2::d_mut; let _ = V2::clear_d; let _ = V2::has_d; let _ = V2Builder::d; let _ = V2::e; let _ = V2::set_e; let _ = V2::e_mut; let _ = V2::clear_e; let _ = V2::has_e; let _ = V2Builder::e; let _ = V2::set_f; let _ = V2::f_mut; let _ = V2::clear_f; let _ = V2::has_f; let _ = V2Builder::f; let _ = V2::g; let _ = V2::clear_g; let _ = V2Builder::g; let _ = V2::h; let _ = V2::set_h; let _ = V2::clear_h; let _ = V2::i; let _ = V2::set_i; let _ = V2::builder;
    }
    lacks! { inner::V2: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV3() {
        use inner::*;
        let _ = V3::a; let _ = V3::set_a; let _ = V3::a_mut; let _ = V3::clear_a; let _ = V3::has_a; let _ = V3Builder::a; let _ = V3::b; let _ = V3::set_b; let _ = V3::b_mut; let _ = V3::clear_b; let _ = V3::has_b; let _ = V3Builder::b; let _ = V3::d; let _ = V3::set_d; let _ = V3::d_mut; let _ = V3::clear_d; let _ = V3::has_d; let _ = V3Builder::d; let _ = V3::e; let _ = V3::set_e; let _ = V3::e_mut; let _ = V3::clear_e; let _ = V3::has_e; let _ = V3Builder::e; let _ = V3::set_f; let _ = V3::f_mut; let _ = V3::clear_f; let _ = V3::has_f; let _ = V3Builder::f; let _ = V3::g; let _ = V3::clear_g; let _ = V3Builder::g; let _ = V3::h; let _ = V3::set_h; let _ = V3::clear_h; let _ = V3::i; let _ = V3::set_i; let _ = V3::builder;
    }
    lacks! { inner::V3: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV4() {
        use inner::*;
        let _ = V4::d; let _ = V4::set_d; let _ = V4::d_mut; let _ = V4::clear_d; let _ = V4::has_d; let _ = V4::e; let _ = V4::set_e; let _ = V4::e_mut; let _ = V4::clear_e; let _ = V4::has_e; let _ = V4::set_f; let _ = V4::g; let _ = V4::clear_g; let _ = V4::h; let _ = V4::set_h; let _ = V4::clear_h; let _ = V4::i; let _ = V4::set_i;
    }
    lacks! { inner::V4: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV5() {
        use inner::*;
        let _ = V5::a; let _ = V5::set_a; let _ = V5::a_mut; let _ = V5::clear_a; let _ = V5::has_a; let _ = V5Builder::a; let _ = V5::b; let _ = V5::set_b; let _ = V5::b_mut; let _ = V5::clear_b; let _ = V5::has_b; let _ = V5Builder::b; let _ = V5::d; let _ = V5::set_d; let _ = V5::d_mut; let _ = V5::clear_d; let _ = V5::has_d; let _ = V5Builder::d; let _ = V5::e; let _ = V5::set_e; let _ = V5::e_mut; let _ = V5::clear_e; let _ = V5::has_e; let _ = V5Builder::e; let _ = V5::set_f; let _ = V5::f_mut; let _ = V5::clear_f; let _ = V5::has_f; let _ = V5Builder::f; let _ = V5::g; let _ = V5::clear_g; let _ = V5Builder::g; let _ = V5::h; let _ = V5::set_h; let _ = V5::clear_h; let _ = V5::i; let _ = V5::set_i; let _ = V5::builder;
    }
    lacks! { inner::V5: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV6() {
        use inner::*;
        let _ = V6::d; let _ = V6::set_d; let _ = V6::d_mut; let _ = V6::clear_d; let _ = V6::has_d; let _ = V6::e; let _ = V6::set_e; let _ = V6::e_mut; let _ = V6::clear_e; let _ = V6::has_e; let _ = V6::set_f; let _ = V6::g; let _ = V6::clear_g; let _ = V6::h; let _ = V6::set_h; let _ = V6::clear_h; let _ = V6::i; let _ = V6::set_i;
    }
    lacks! { inner::V6: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV7() {
        use inner::*;
        let _ = V7::d; let _ = V7::set_d; let _ = V7::d_mut; let _ = V7::clear_d; let _ = V7::has_d; let _ = V7::e; let _ = V7::set_e; let _ = V7::e_mut; let _ = V7::clear_e; let _ = V7::has_e; let _ = V7::set_f; let _ = V7::g; let _ = V7::clear_g; let _ = V7::h; let _ = V7::set_h; let _ = V7::clear_h; let _ = V7::i; let _ = V7::set_i;
    }
    lacks! { inner::V7: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV8() {
        use inner::*;
        let _ = V8::a; let _ = V8::set_a; let _ = V8::a_mut; let _ = V8::clear_a; let _ = V8::has_a; let _ = V8Builder::a; let _ = V8::b; let _ = V8::set_b; let _ = V8::b_mut; let _ = V8::clear_b; let _ = V8::has_b; let _ = V8Builder::b; let _ = V8::d; let _ = V8::set_d; let _ = V8::d_mut; let _ = V8::clear_d; let _ = V8::has_d; let _ = V8Builder::d; let _ = V8::e; let _ = V8::set_e; let _ = V8::e_mut; let _ = V8::clear_e; let _ = V8::has_e; let _ = V8Builder::e; let _ = V8::set_f; let _ = V8::f_mut; let _ = V8::clear_f; let _ = V8::has_f; let _ = V8Builder::f; let _ = V8::g; let _ = V8::clear_g; let _ = V8Builder::g; let _ = V8::h; let _ = V8::set_h; let _ = V8::clear_h; let _ = V8::i; let _ = V8::set_i; let _ = V8::builder;
    }
    lacks! { inner::V8: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV9() {
        use inner::*;
        let _ = V9::a; let _ = V9::set_a; let _ = V9::a_mut; let _ = V9::clear_a; let _ = V9::has_a; let _ = V9Builder::a; let _ = V9::b; let _ = V9::set_b; let _ = V9::b_mut; let _ = V9::clear_b; let _ = V9::has_b; let _ = V9Builder::b; let _ = V9::d; let _ = V9::set_d; let _ = V9::d_mut; let _ = V9::clear_d; let _ = V9::has_d; let _ = V9Builder::d; let _ = V9::e; let _ = V9::set_e; let _ = V9::e_mut; let _ = V9::clear_e; let _ = V9::has_e; let _ = V9Builder::e; let _ = V9::set_f; let _ = V9::f_mut; let _ = V9::clear_f; let _ = V9::has_f; let _ = V9Builder::f; let _ = V9::g; let _ = V9::clear_g; let _ = V9Builder::g; let _ = V9::h; let _ = V9::set_h; let _ = V9::clear_h; let _ = V9::i; let _ = V9::set_i; let _ = V9::builder;
    }
    lacks! { inner::V9: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV10() {
        use inner::*;
        let _ = V10::d; let _ = V10::set_d; let _ = V10::d_mut; let _ = V10::clear_d; let _ = V10::has_d; let _ = V10::e; let _ = V10::set_e; let _ = V10::e_mut; let _ = V10::clear_e; let _ = V10::has_e; let _ = V10::set_f; let _ = V10::g; let _ = V10::clear_g; let _ = V10::h; let _ = V10::set_h; let _ = V10::clear_h; let _ = V10::i; let _ = V10::set_i;
    }
    lacks! { inner::V10: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV11() {
        use inner::*;
        let _ = V11::a; let _ = V11::set_a; let _ = V11::a_mut; let _ = V11::clear_a; let _ = V11::has_a; let _ = V11Builder::a; let _ = V11::b; let _ = V11::set_b; let _ = V11::b_mut; let _ = V11::clear_b; let _ = V11::has_b; let _ = V11Builder::b; let _ = V11::d; let _ = V11::set_d; let _ = V11::d_mut; let _ = V11::clear_d; let _ = V11::has_d; let _ = V11Builder::d; let _ = V11::e; let _ = V11::set_e; let _ = V11::e_mut; let _ = V11::clear_e; let _ = V11::has_e; let _ = V11Builder::e; let _ = V11::set_f; let _ = V11::f_mut; let _ = V11::clear_f; let _ = V11::has_f; let _ = V11Builder::f; let _ = V11::g; let _ = V11::clear_g; let _ = V11Builder::g; let _ = V11::h; let _ = V11::set_h; let _ = V11::clear_h; let _ = V11::i; let _ = V11::set_i; let _ = V11::builder;
    }
    lacks! { inner::V11: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV12() {
        use inner::*;
        let _ = V12::set_a; let _ = V12::a_mut; let _ = V12::has_a; let _ = V12::set_b; let _ = V12::b_mut; let _ = V12::has_b; let _ = V12::d; let _ = V12::set_d; let _ = V12::d_mut; let _ = V12::clear_d; let _ = V12::has_d; let _ = V12::e; let _ = V12::set_e; let _ = V12::e_mut; let _ = V12::clear_e; let _ = V12::has_e; let _ = V12::set_f; let _ = V12::f_mut; let _ = V12::has_f; let _ = V12::g; let _ = V12::clear_g; let _ = V12::h; let _ = V12::set_h; let _ = V12::clear_h; let _ = V12::i; let _ = V12::set_i;
    }
    lacks! { inner::V12: a clear_a b clear_b c set_c c_mut clear_c has_c f clear_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV13() {
        use inner::*;
        let _ = V13::a; let _ = V13::set_a; let _ = V13::a_mut; let _ = V13::clear_a; let _ = V13::has_a; let _ = V13Builder::a; let _ = V13::b; let _ = V13::set_b; let _ = V13::b_mut; let _ = V13::clear_b; let _ = V13::has_b; let _ = V13Builder::b; let _ = V13::d; let _ = V13::set_d; let _ = V13::d_mut; let _ = V13::clear_d; let _ = V13::has_d; let _ = V13Builder::d; let _ = V13::e; let _ = V13::set_e; let _ = V13::e_mut; let _ = V13::clear_e; let _ = V13::has_e; let _ = V13Builder::e; let _ = V13::set_f; let _ = V13::f_mut; let _ = V13::clear_f; let _ = V13::has_f; let _ = V13Builder::f; let _ = V13::g; let _ = V13::clear_g; let _ = V13Builder::g; let _ = V13::h; let _ = V13::set_h; let _ = V13::clear_h; let _ = V13::i; let _ = V13::set_i; let _ = V13::builder;
    }
    lacks! { inner::V13: c set_c c_mut clear_c has_c f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
    fn supV14() {
        use inner::*;
        let _ = V14::d; let _ = V14::set_d; let _ = V14::d_mut; let _ = V14::clear_d; let _ = V14::has_d; let _ = V14::e; let _ = V14::set_e; let _ = V14::e_mut; let _ = V14::clear_e; let _ = V14::has_e; let _ = V14::set_f; let _ = V14::g; let _ = V14::clear_g; let _ = V14::h; let _ = V14::set_h; let _ = V14::clear_h; let _ = V14::i; let _ = V14::set_i;
    }
    lacks! { inner::V14: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c f f_mut clear_f has_f set_g g_mut has_g h_mut has_h i_mut clear_i has_i }
}
fn allV0() {
    use outer::inner::*;
    let _ = V0::a; let _ = V0::set_a; let _ = V0::a_mut; let _ = V0::clear_a; let _ = V0::has_a; let _ = V0Builder::a; let _ = V0::b; let _ = V0::set_b; let _ = V0::b_mut; let _ = V0::clear_b; let _ = V0::has_b; let _ = V0Builder::b; let _ = V0::d; let _ = V0::set_d; let _ = V0::d_mut; let _ = V0::clear_d; let _ = V0::has_d; let _ = V0Builder::d; let _ = V0::set_f; let _ = V0::f_mut; let _ = V0::clear_f; let _ = V0::has_f; let _ = V0Builder::f; let _ = V0::g; let _ = V0Builder::g; let _ = V0::h; let _ = V0::set_h; let _ = V0::clear_h; let _ = V0::builder;
}
lacks! { outer::inner::V0: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV1() {
    use outer::inner::*;
    let _ = V1::d; let _ = V1::set_d; let _ = V1::d_mut; let _ = V1::clear_d; let _ = V1::has_d; let _ = V1::set_f; let _ = V1::g; let _ = V1::h; let _ = V1::set_h; let _ = V1::clear_h;
}
lacks! { outer::inner::V1: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV2() {
    use outer::inner::*;
    let _ = V2::a; let _ = V2::set_a; let _ = V2::a_mut; let _ = V2::clear_a; let _ = V2::has_a; let _ = V2Builder::a; let _ = V2::b; let _ = V2::set_b; let _ = V2::b_mut; let _ = V2::clear_b; let _ = V2::has_b; let _ = V2Builder::b; let _ = V2::d; let _ = V2::set_d; let _ = V2::d_mut; let _ = V2::clear_d; let _ = V2::has_d; let _ = V2Builder::d; let _ = V2::set_f; let _ = V2::f_mut; let _ = V2::clear_f; let _ = V2::has_f; let _ = V2Builder::f; let _ = V2::g; let _ = V2Builder::g; let _ = V2::h; let _ = V2::set_h; let _ = V2::clear_h; let _ = V2::builder;
}
lacks! { outer::inner::V2: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV3() {
    use outer::inner::*;
    let _ = V3::a; let _ = V3::set_a; let _ = V3::a_mut; let _ = V3::clear_a; let _ = V3::has_a; let _ = V3Builder::a; let _ = V3::b; let _ = V3::set_b; let _ = V3::b_mut; let _ = V3::clear_b; let _ = V3::has_b; let _ = V3Builder::b; let _ = V3::d; let _ = V3::set_d; let _ = V3::d_mut; let _ = V3::clear_d; let _ = V3::has_d; let _ = V3Builder::d; let _ = V3::set_f; let _ = V3::f_mut; let _ = V3::clear_f; let _ = V3::has_f; let _ = V3Builder::f; let _ = V3::g; let _ = V3Builder::g; let _ = V3::h; let _ = V3::set_h; let _ = V3::clear_h; let _ = V3::builder;
}
lacks! { outer::inner::V3: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV4() {
    use outer::inner::*;
    let _ = V4::d; let _ = V4::set_d; let _ = V4::d_mut; let _ = V4::clear_d; let _ = V4::has_d; let _ = V4::set_f; let _ = V4::g; let _ = V4::h; let _ = V4::set_h; let _ = V4::clear_h;
}
lacks! { outer::inner::V4: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV5() {
    use outer::inner::*;
    let _ = V5::a; let _ = V5::set_a; let _ = V5::a_mut; let _ = V5::clear_a; let _ = V5::has_a; let _ = V5Builder::a; let _ = V5::b; let _ = V5::set_b; let _ = V5::b_mut; let _ = V5::clear_b; let _ = V5::has_b; let _ = V5Builder::b; let _ = V5::d; let _ = V5::set_d; let _ = V5::d_mut; let _ = V5::clear_d; let _ = V5::has_d; let _ = V5Builder::d; let _ = V5::set_f; let _ = V5::f_mut; let _ = V5::clear_f; let _ = V5::has_f; let _ = V5Builder::f; let _ = V5::g; let _ = V5Builder::g; let _ = V5::h; let _ = V5::set_h; let _ = V5::clear_h; let _ = V5::builder;
}
lacks! { outer::inner::V5: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV6() {
    use outer::inner::*;
    let _ = V6::d; let _ = V6::set_d; let _ = V6::d_mut; let _ = V6::clear_d; let _ = V6::has_d; let _ = V6::set_f; let _ = V6::g; let _ = V6::h; let _ = V6::set_h; let _ = V6::clear_h;
}
lacks! { outer::inner::V6: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV7() {
    use outer::inner::*;
    let _ = V7::d; let _ = V7::set_d; let _ = V7::d_mut; let _ = V7::clear_d; let _ = V7::has_d; let _ = V7::set_f; let _ = V7::g; let _ = V7::h; let _ = V7::set_h; let _ = V7::clear_h;
}
lacks! { outer::inner::V7: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV8() {
    use outer::inner::*;
    let _ = V8::a; let _ = V8::set_a; let _ = V8::a_mut; let _ = V8::clear_a; let _ = V8::has_a; let _ = V8Builder::a; let _ = V8::b; let _ = V8::set_b; let _ = V8::b_mut; let _ = V8::clear_b; let _ = V8::has_b; let _ = V8Builder::b; let _ = V8::d; let _ = V8::set_d; let _ = V8::d_mut; let _ = V8::clear_d; let _ = V8::has_d; let _ = V8Builder::d; let _ = V8::set_f; let _ = V8::f_mut; let _ = V8::clear_f; let _ = V8::has_f; let _ = V8Builder::f; let _ = V8::g; let _ = V8Builder::g; let _ = V8::h; let _ = V8::set_h; let _ = V8::clear_h; let _ = V8::builder;
}
lacks! { outer::inner::V8: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV9() {
    use outer::inner::*;
    let _ = V9::d; let _ = V9::set_d; let _ = V9::d_mut; let _ = V9::clear_d; let _ = V9::has_d; let _ = V9::set_f; let _ = V9::g; let _ = V9::h; let _ = V9::set_h; let _ = V9::clear_h;
}
lacks! { outer::inner::V9: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV10() {
    use outer::inner::*;
    let _ = V10::d; let _ = V10::set_d; let _ = V10::d_mut; let _ = V10::clear_d; let _ = V10::has_d; let _ = V10::set_f; let _ = V10::g; let _ = V10::h; let _ = V10::set_h; let _ = V10::clear_h;
}
lacks! { outer::inner::V10: a set_a a_mut clear_a has_a b set_b b_mut clear_b has_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f has_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV11() {
    use outer::inner::*;
    let _ = V11::a; let _ = V11::set_a; let _ = V11::a_mut; let _ = V11::clear_a; let _ = V11::has_a; let _ = V11Builder::a; let _ = V11::b; let _ = V11::set_b; let _ = V11::b_mut; let _ = V11::clear_b; let _ = V11::has_b; let _ = V11Builder::b; let _ = V11::d; let _ = V11::set_d; let _ = V11::d_mut; let _ = V11::clear_d; let _ = V11::has_d; let _ = V11Builder::d; let _ = V11::set_f; let _ = V11::f_mut; let _ = V11::clear_f; let _ = V11::has_f; let _ = V11Builder::f; let _ = V11::g; let _ = V11Builder::g; let _ = V11::h; let _ = V11::set_h; let _ = V11::clear_h; let _ = V11::builder;
}
lacks! { outer::inner::V11: c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
fn allV12() {
    use outer::inner::*;
    let _ = V12::set_a; let _ = V12::has_a; let _ = V12::set_b; let _ = V12::has_b; let _ = V12::d; let _ = V12::set_d; let _ = V12::d_mut; let _ = V12::clear_d; let _ = V12::has_d; let _ = V12::set_f; let _ = V12::has_f; let _ = V12::g; let _ = V12::h; let _ = V12::set_h; let _ = V12::clear_h;
}
lacks! { outer::inner::V12: a a_mut clear_a b b_mut clear_b c set_c c_mut clear_c has_c e set_e e_mut clear_e has_e f f_mut clear_f set_g g_mut clear_g has_g h_mut has_h i set_i i_mut clear_i has_i }
