//! Interior mutability.
use crate::common::*;
use fieldx::{fxstruct, Ref, RefMut};

/// A struct of `N` fields with interior mutability. Everything is available via a shared reference.
pub trait Inner: Sized {
    const N: usize;
    fn make() -> Self;
    fn initial(i: usize) -> Option<i32>;
    fn view(&self, i: usize) -> Option<i32>;
    /// These three return `false` if there is no such helper.
    fn set(&self, i: usize, x: i32, old: Option<i32>) -> bool;
    fn mutate(&self, i: usize, x: i32, old: Option<i32>) -> bool;
    fn clear(&self, i: usize, old: Option<i32>) -> bool;
    /// Holds the field's read guard while `f` is being called
    fn hold(&self, i: usize, f: &mut dyn FnMut()) -> bool;
}

macro_rules! inner {
    ($t:ty; $( $init:expr; view |$v:ident| $view:expr; $( set |$s:ident, $x:ident| $set:expr; )?
               $( mutate |$ms:ident| $mutate:expr, |$mg:ident, $mx:ident| $store:expr; )? $( clear |$c:ident| $clear:expr; )?
               $( hold |$h:ident| $hold:expr; )? );+) => {
        impl Inner for $t {
            const N: usize = 0 $( + { let _ = stringify!($init); 1 } )+;
            fn make() -> Self {
                Self::new()
            }
            fn initial(i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        return $init;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn view(&self, i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        let $v = self;
                        return $view;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn set(&self, i: usize, x: i32, old: Option<i32>) -> bool {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $s = self;
                            let $x = x;
                            let r: Option<i32> = $set;
                            assert!(r == old, "the setter must return the value it replaces");
                            return true;
                        )?
                        #[allow(unreachable_code)]
                        return false;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn mutate(&self, i: usize, x: i32, old: Option<i32>) -> bool {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $ms = self;
                            let mut $mg = $mutate;
                            let $mx = x;
                            let r: Option<i32> = $store;
                            assert!(r == old, "the mutable accessor is of another value");
                            return true;
                        )?
                        #[allow(unreachable_code)]
                        return false;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn clear(&self, i: usize, old: Option<i32>) -> bool {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $c = self;
                            let r: Option<i32> = $clear;
                            assert!(r == old, "the clearer must return the value it removes");
                            return true;
                        )?
                        #[allow(unreachable_code)]
                        return false;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn hold(&self, i: usize, f: &mut dyn FnMut()) -> bool {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $h = self;
                            let _guard = $hold;
                            f();
                            return true;
                        )?
                        #[allow(unreachable_code)]
                        return false;
                    }
                    k += 1;
                )+
                unreachable!()
            }
        }
    };
}

fn val(t: &Tok) -> Option<i32> {
    Some(t.0)
}
fn swap(t: &mut Tok, x: i32) -> Option<i32> {
    Some(std::mem::replace(&mut t.0, x))
}
fn swap_i(t: &mut i32, x: i32) -> Option<i32> {
    Some(std::mem::replace(t, x))
}

#[fxstruct]
pub struct Plain {
    #[fieldx(inner_mut, get, get_mut, set)]
    a: i32,
    #[fieldx(inner_mut, get(copy), get_mut, set, default(7))]
    b: i32,
    #[fieldx(inner_mut, get(clone), get_mut, set)]
    c: Tok,
    #[fieldx(inner_mut, get, set(into))]
    d: Tok,
    #[fieldx(get)]
    e: i32,
    #[fieldx(inner_mut)]
    f: i32,
}
inner! { Plain;
    Some(0); view |s| { let r: Ref<i32> = s.a(); Some(*r) }; set |s, x| Some(s.set_a(x)); mutate |s| { let g: RefMut<i32> = s.a_mut(); g }, |g, x| swap_i(&mut g, x); hold |s| s.a();;
    Some(7); view |s| { let r: i32 = s.b(); Some(r) }; set |s, x| Some(s.set_b(x)); mutate |s| { let g: RefMut<i32> = s.b_mut(); g }, |g, x| swap_i(&mut g, x); hold |s| s.b();;
    Some(0); view |s| { let r: Tok = s.c(); val(&r) }; set |s, x| val(&s.set_c(Tok(x))); mutate |s| { let g: RefMut<Tok> = s.c_mut(); g }, |g, x| swap(&mut g, x);;
    Some(0); view |s| { let r: Ref<Tok> = s.d(); val(&r) }; set |s, x| val(&s.set_d(x)); hold |s| s.d();;
    Some(0); view |s| { let r: &i32 = s.e(); Some(*r) };;
    Some(0); view |s| { let r: Ref<i32> = s.f(); Some(*r) }; hold |s| s.f();
}

#[fxstruct]
pub struct Opt {
    #[fieldx(inner_mut, optional, get, get_mut, set, clearer, predicate)]
    a: i32,
    #[fieldx(inner_mut, optional, get(copy), get_mut, set, clearer, predicate, default(8))]
    b: i32,
    #[fieldx(inner_mut, optional, get(clone), set, clearer, predicate)]
    c: Tok,
    #[fieldx(inner_mut, optional, get, set(into), clearer("drop_f"), predicate("knows_f"))]
    f: Tok,
}
inner! { Opt;
    None; view |s| { let r: Ref<Option<i32>> = s.a(); assert!(s.has_a() == r.is_some()); *r }; set |s, x| s.set_a(x); mutate |s| { let g: RefMut<Option<i32>> = s.a_mut(); g }, |g, x| g.replace(x); clear |s| s.clear_a(); hold |s| s.a();;
    Some(8); view |s| { let r: Option<i32> = s.b(); assert!(s.has_b() == r.is_some()); r }; set |s, x| s.set_b(x); mutate |s| { let g: RefMut<Option<i32>> = s.b_mut(); g }, |g, x| g.replace(x); clear |s| s.clear_b();;
    None; view |s| { let r: Option<Tok> = s.c(); assert!(s.has_c() == r.is_some()); r.as_ref().and_then(val) }; set |s, x| s.set_c(Tok(x)).as_ref().and_then(val); clear |s| s.clear_c().as_ref().and_then(val);;
    None; view |s| { let r: Ref<Option<Tok>> = s.f(); assert!(s.knows_f() == r.is_some()); r.as_ref().and_then(val) }; set |s, x| s.set_f(x).as_ref().and_then(val); clear |s| s.drop_f().as_ref().and_then(val); hold |s| s.f();
}

/// Optional because of the helpers
#[fxstruct]
pub struct Implied {
    #[fieldx(inner_mut, get(copy), set, clearer)]
    d: i32,
    #[fieldx(inner_mut, get(copy), set, predicate)]
    e: i32,
    f: i32,
}
inner! { Implied;
    None; view |s| { let r: Option<i32> = s.d(); r }; set |s, x| s.set_d(x); clear |s| s.clear_d();;
    None; view |s| { let r: Option<i32> = s.e(); assert!(s.has_e() == r.is_some()); r }; set |s, x| s.set_e(x);;
    Some(0); view |s| Some(s.f);
}

/// All the fields, except for those which are not
#[fxstruct(inner_mut, get(copy), get_mut, set)]
pub struct All {
    a: i32,
    #[fieldx(optional, clearer, predicate)]
    b: i32,
    #[fieldx(get(clone))]
    c: Tok,
    #[fieldx(inner_mut(off), get_mut(off), set(off))]
    d: i32,
    #[fieldx(inner_mut(off), optional, get_mut(off), set(off))]
    e: i32,
    #[fieldx(clone)]
    f: i32,
}
inner! { All;
    Some(0); view |s| { let r: i32 = s.a(); Some(r) }; set |s, x| Some(s.set_a(x)); mutate |s| { let g: RefMut<i32> = s.a_mut(); g }, |g, x| swap_i(&mut g, x);;
    None; view |s| { let r: Option<i32> = s.b(); assert!(s.has_b() == r.is_some()); r }; set |s, x| s.set_b(x); mutate |s| { let g: RefMut<Option<i32>> = s.b_mut(); g }, |g, x| g.replace(x); clear |s| s.clear_b();;
    Some(0); view |s| { let r: Tok = s.c(); val(&r) }; set |s, x| val(&s.set_c(Tok(x))); mutate |s| { let g: RefMut<Tok> = s.c_mut(); g }, |g, x| swap(&mut g, x);;
    Some(0); view |s| { let r: &i32 = &s.d; assert!(s.d() == *r); Some(*r) };;
    None; view |s| { let r: &Option<i32> = &s.e; assert!(s.e() == *r); *r };;
    Some(0); view |s| { let r: i32 = s.f(); Some(r) }; set |s, x| Some(s.set_f(x)); mutate |s| { let g: RefMut<i32> = s.f_mut(); g }, |g, x| swap_i(&mut g, x);
}

/// In a thread-safe struct the field isn't thread-safe, but is as mutable
#[fxstruct(sync)]
pub struct InSync {
    #[fieldx(inner_mut, get(copy), get_mut, set, default(9))]
    a: i32,
    #[fieldx(inner_mut, optional, get(clone), set, clearer, predicate)]
    b: i32,
    #[fieldx(lock, get(copy), set)]
    c: i32,
    #[fieldx(inner_mut, get, set)]
    d: Tok,
}
inner! { InSync;
    Some(9); view |s| { let r: i32 = s.a(); Some(r) }; set |s, x| Some(s.set_a(x)); mutate |s| { let g: RefMut<i32> = s.a_mut(); g }, |g, x| swap_i(&mut g, x);;
    None; view |s| { let r: Option<i32> = s.b(); assert!(s.has_b() == r.is_some()); r }; set |s, x| s.set_b(x); clear |s| s.clear_b();;
    Some(0); view |s| { let r: i32 = s.c(); Some(r) }; set |s, x| Some(s.set_c(x));;
    Some(0); view |s| { let r: Ref<Tok> = s.d(); val(&r) }; set |s, x| val(&s.set_d(Tok(x))); hold |s| s.d();
}
#[fxstruct(r#async)]
pub struct InAsync {
    #[fieldx(inner_mut, get(copy), get_mut, set, default(9))]
    a: i32,
    #[fieldx(inner_mut, optional, get(clone), set, clearer, predicate)]
    b: i32,
    #[fieldx(inner_mut, get, set)]
    c: Tok,
}
inner! { InAsync;
    Some(9); view |s| { let r: i32 = s.a(); Some(r) }; set |s, x| Some(s.set_a(x)); mutate |s| { let g: RefMut<i32> = s.a_mut(); g }, |g, x| swap_i(&mut g, x);;
    None; view |s| { let r: Option<i32> = s.b(); assert!(s.has_b() == r.is_some()); r }; set |s, x| s.set_b(x); clear |s| s.clear_b();;
    Some(0); view |s| { let r: Ref<Tok> = s.c(); val(&r) }; set |s, x| val(&s.set_c(Tok(x))); hold |s| s.c();
}

/// Along with lazy fields
#[fxstruct(builder, default)]
pub struct WithLazy {
    #[fieldx(inner_mut, get(copy), get_mut, set)]
    a: i32,
    #[fieldx(lazy, get(copy), predicate)]
    b: i32,
    #[fieldx(inner_mut, optional, get(copy), set, clearer, predicate)]
    c: i32,
}
impl WithLazy {
    /// Reads and changes the other fields
    fn build_b(&self) -> i32 {
        let a = self.a();
        self.set_a(res());
        self.set_c(a);
        a
    }
}

/// What's given to a setter uses the struct while being converted
#[fxstruct]
pub struct Using {
    #[fieldx(inner_mut, get(copy), set(into), default(6))]
    a: i32,
    #[fieldx(inner_mut, optional, get(copy), set(into), clearer, predicate)]
    b: i32,
    #[fieldx(inner_mut, get(copy), set)]
    c: i32,
}
#[fxstruct(sync, get(copy), set(into))]
pub struct UsingSync {
    #[fieldx(inner_mut)]
    a: i32,
    #[fieldx(inner_mut, optional, clearer, predicate)]
    b: i32,
    #[fieldx(inner_mut, into(off))]
    c: i32,
}
pub struct User<'a, S>(&'a S, i32);
macro_rules! using {
    ($( $t:ident )+) => {
        $(
            impl<'a> From<User<'a, $t>> for i32 {
                fn from(u: User<'a, $t>) -> i32 {
                    let (a, b) = (u.0.a(), u.0.b());
                    if u.1 == 0 {
                        u.0.set_a(1);
                        u.0.clear_b();
                        u.0.set_c(a);
                    }
                    a.wrapping_add(b.unwrap_or(0)).wrapping_add(u.1)
                }
            }
        )+
    };
}
using! { Using UsingSync }

/// The type of a field doesn't matter
#[fxstruct(inner_mut, get, get_mut, set, clone)]
pub struct Gen<T: Clone + Default> {
    a: T,
    #[fieldx(optional, clearer, predicate)]
    b: T,
    #[fieldx(get)]
    c: Vec<T>,
}
pub type GenTok = Gen<Tok>;
inner! { GenTok;
    Some(0); view |s| { let r: Tok = s.a(); val(&r) }; set |s, x| val(&s.set_a(Tok(x))); mutate |s| s.a_mut(), |g, x| swap(&mut g, x);;
    None; view |s| { let r: Option<Tok> = s.b(); assert!(s.has_b() == r.is_some()); r.as_ref().and_then(val) }; set |s, x| s.set_b(Tok(x)).as_ref().and_then(val); mutate |s| s.b_mut(), |g, x| g.replace(Tok(x)).as_ref().and_then(val); clear |s| s.clear_b().as_ref().and_then(val);
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use std::mem::ManuallyDrop;
    const MAX: usize = 8;

    fn check<T: Inner>(s: &T, vals: &[Option<i32>; MAX]) {
        for i in 0..T::N {
            assert!(s.view(i) == vals[i], "an accessor returns a wrong value");
        }
    }
    fn start<T: Inner>() -> (ManuallyDrop<T>, [Option<i32>; MAX]) {
        let mut vals = [None; MAX];
        for i in 0..T::N {
            vals[i] = T::initial(i);
        }
        (ManuallyDrop::new(T::make()), vals)
    }

    /// Each method does exactly what it has to with its own field, from the initial state and from arbitrary ones
    fn each<T: Inner>() {
        let (s, mut vals) = start::<T>();
        check(&*s, &vals);
        let mut round = 0;
        while round < 2 {
            for i in 0..T::N {
                let x = any();
                if s.set(i, x, vals[i]) {
                    vals[i] = Some(x);
                    check(&*s, &vals);
                }
                let x = any();
                if s.mutate(i, x, vals[i]) {
                    vals[i] = Some(x);
                    check(&*s, &vals);
                }
                if round == 0 && s.clear(i, vals[i]) {
                    vals[i] = None;
                    check(&*s, &vals);
                    let x = any();
                    if s.mutate(i, x, vals[i]) {
                        vals[i] = Some(x);
                        check(&*s, &vals);
                    }
                    s.clear(i, vals[i]);
                    vals[i] = None;
                    let x = any();
                    if s.set(i, x, vals[i]) {
                        vals[i] = Some(x);
                        check(&*s, &vals);
                    }
                }
            }
            round += 1;
        }
        cover!(true, "reachable");
    }

    /// A borrow of a field is of this field only; other fields can be changed meanwhile, and the field itself can be read
    fn borrows<T: Inner>() {
        let (s, mut vals) = start::<T>();
        for i in 0..T::N {
            let x = any();
            if s.set(i, x, vals[i]) {
                vals[i] = Some(x);
            }
        }
        for i in 0..T::N {
            let s = &*s;
            let mut now = vals;
            s.hold(i, &mut || {
                for j in 0..T::N {
                    assert!(s.view(j) == now[j]);
                    if j != i {
                        let x = any();
                        if s.mutate(j, x, now[j]) {
                            now[j] = Some(x);
                        }
                        if s.clear(j, now[j]) {
                            now[j] = None;
                        }
                        let x = any();
                        if s.set(j, x, now[j]) {
                            now[j] = Some(x);
                        }
                    }
                }
            });
            vals = now;
            check(s, &vals);
        }
        cover!(true, "reachable");
    }

    macro_rules! contracts {
        ($( $op:ident: $( $t:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(8)]
                        pub fn $t() {
                            super::$op::<super::super::$t>()
                        }
                    )+
                }
            )+
        };
    }
    contracts! {
        each: Plain Opt Implied All InSync InAsync GenTok;
        borrows: Plain Opt InSync InAsync;
    }

    /// The conversion of a setter's argument takes place before the field is borrowed
    macro_rules! conversions {
        ($( $p:ident $t:ident; )+) => {
            $(
                #[kani::proof]
                #[kani::unwind(3)]
                pub fn $p() {
                    let s = ManuallyDrop::new($t::new());
                    let (x, y, z): (i32, i32, i32) = (any(), any(), any());
                    s.set_a(x);
                    assert!(s.set_b(y).is_none());
                    crate::common::assume(z != 0);
                    assert!(s.set_a(User(&*s, z)) == x);
                    let a = x.wrapping_add(y).wrapping_add(z);
                    assert!(s.a() == a && s.b() == Some(y));
                    assert!(s.set_b(User(&*s, z)) == Some(y));
                    let b = a.wrapping_add(y).wrapping_add(z);
                    assert!(s.a() == a && s.b() == Some(b));
                    // Changes made by the conversion are made before the value is set
                    assert!(s.set_a(User(&*s, 0)) == 1, "the value set while converting is lost");
                    assert!(s.a() == a.wrapping_add(b) && s.b().is_none() && s.c() == a);
                    s.set_b(y);
                    assert!(s.set_b(User(&*s, 0)).is_none(), "the value cleared while converting isn't");
                    assert!(s.a() == 1 && s.b() == Some(a.wrapping_add(b).wrapping_add(y)));
                    assert!(s.c() == a.wrapping_add(b));
                    cover!(true, "reachable");
                }
            )+
        };
    }
    conversions! {
        using Using;
        using_sync UsingSync;
    }

    /// Nobody else can get at the field while it's being changed, and no borrow stays behind afterwards
    #[kani::proof]
    #[kani::unwind(3)]
    pub fn released() {
        let s = ManuallyDrop::new(Opt::new());
        let x: i32 = any();
        {
            let mut g = s.a_mut();
            *g = Some(x);
            assert!(s.a.try_borrow().is_err() && s.a.try_borrow_mut().is_err());
            assert!(s.b.try_borrow_mut().is_ok());
        }
        assert!(s.a.try_borrow_mut().is_ok());
        let v: Option<i32> = s.b();
        assert!(s.b.try_borrow_mut().is_ok(), "a copying accessor keeps the borrow");
        let w = ManuallyDrop::new(s.c());
        assert!(s.c.try_borrow_mut().is_ok(), "a cloning accessor keeps the borrow");
        s.has_a();
        s.set_a(x);
        s.clear_a();
        s.has_c();
        s.set_c(Tok(x));
        std::mem::forget(s.clear_c());
        assert!(s.a.try_borrow_mut().is_ok() && s.c.try_borrow_mut().is_ok(), "a borrow is left behind");
        {
            let one = s.a();
            let two = s.a();
            assert!(s.a.try_borrow_mut().is_err() && one.is_none() && two.is_none());
        }
        assert!(s.a.try_borrow_mut().is_ok(), "a borrow is left behind");
        assert!(v == Some(8) && w.is_none());
        cover!(true, "reachable");
    }

    /// Nothing is lost or duplicated
    #[kani::proof]
    #[kani::unwind(3)]
    pub fn ownership() {
        let s = ManuallyDrop::new(Opt::new());
        let (drops0, clones0) = (drops(), clones());
        let (x, y): (i32, i32) = (any(), any());
        assert!(s.set_c(Tok(x)).is_none() && s.set_f(y).is_none());
        assert!(s.set_c(Tok(y)).map(untok) == Some(x));
        assert!(s.clear_c().map(untok) == Some(y) && s.drop_f().map(untok) == Some(y));
        assert!(s.clear_c().is_none() && s.drop_f().is_none());
        assert!(drops() == drops0 && clones() == clones0, "a value is dropped or duplicated");
        std::mem::forget(s.set_c(Tok(x)));
        assert!(s.c().map(untok) == Some(x));
        assert!(drops() == drops0 && clones() == clones0 + 1, "a value is dropped or duplicated");
        cover!(true, "reachable");
    }

    /// A lazy builder can use the other fields
    #[kani::proof]
    #[kani::unwind(3)]
    pub fn with_lazy() {
        let (x, y) = (any(), any());
        let s = WithLazy::builder().a(x).build();
        let s = ManuallyDrop::new(s.ok().unwrap());
        set_res(y);
        assert!(!s.has_b() && !s.has_c());
        assert!(s.b() == x && s.a() == y && s.c() == Some(x));
        s.set_a(x);
        assert!(s.b() == x && s.a() == x && s.clear_c() == Some(x));
        cover!(true, "reachable");
    }
}
