//! Contracts of struct builders.
use crate::common::*;
use fieldx::error::FieldXError;

/// What a field is when the builder isn't given a value for it.
#[derive(Clone, Copy, PartialEq)]
pub enum Absent {
    Required,
    Preset(i32),
    Unset,
    /// The builder has no method for it, this is the value it always has.
    Fixed(Option<i32>),
}
pub use Absent::*;

/// How errors of a builder name a field
pub trait Failure {
    fn names(&self, field: &str) -> bool;
}
pub fn same_str(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
impl Failure for FieldXError {
    fn names(&self, field: &str) -> bool {
        match self {
            FieldXError::UninitializedField(f) => same_str(f, field),
            _ => false,
        }
    }
}

/// A struct of `N` fields with a builder
pub trait Built: Sized {
    const N: usize;
    type Builder;
    type Error: Failure;
    fn builder() -> Self::Builder;
    fn build(b: &mut Self::Builder) -> Result<Self, Self::Error>;
    fn give(b: Self::Builder, i: usize, x: i32) -> Self::Builder;
    fn peek(&mut self, i: usize) -> Option<i32>;
    fn absent(i: usize) -> Absent;
    fn name(i: usize) -> &'static str;
}

#[macro_export]
macro_rules! built {
    ($t:ty, $b:ty, $err:ty; new: $builder:expr; build: |$bb:ident| $build:expr;
     $( $name:literal, $absent:expr; $( give |$g:ident, $x:ident| $give:expr; )? peek |$p:ident| $peek:expr ),+ $(,)?) => {
        impl $crate::built::Built for $t {
            const N: usize = 0 $( + { let _ = $name; 1 } )+;
            type Builder = $b;
            type Error = $err;
            fn builder() -> $b {
                $builder
            }
            fn build($bb: &mut $b) -> Result<Self, $err> {
                $build
            }
            fn give(b: $b, i: usize, x: i32) -> $b {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $g = b;
                            let $x = x;
                            return $give;
                        )?
                        #[allow(unreachable_code)]
                        { unreachable!() }
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn peek(&mut self, i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        let $p = self;
                        return $peek;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn absent(i: usize) -> $crate::built::Absent {
                let mut k = 0;
                $(
                    if i == k {
                        return $absent;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn name(i: usize) -> &'static str {
                let mut k = 0;
                $(
                    if i == k {
                        return $name;
                    }
                    k += 1;
                )+
                unreachable!()
            }
        }
    };
}

pub trait Num {
    fn num(&self) -> i32;
}
impl Num for i32 {
    fn num(&self) -> i32 {
        *self
    }
}
impl Num for Tok {
    fn num(&self) -> i32 {
        self.0
    }
}
/// Reads a lazy field without building it. The field has to have a predicate, a clearer, and a setter.
#[macro_export]
macro_rules! peek_lazy {
    ($s:ident, $has:ident, $clear:ident, $set:ident) => {{
        let has = $s.$has();
        let v = $s.$clear();
        assert!(has == v.is_some(), "the predicate contradicts the field state");
        let n = v.as_ref().map($crate::built::Num::num);
        if let Some(x) = v {
            std::mem::forget($s.$set(x));
        }
        n
    }};
}
#[macro_export]
macro_rules! peek_lazy_async {
    ($s:ident, $has:ident, $clear:ident, $set:ident) => {{
        let has = $s.$has();
        let v = $crate::common::run_now($s.$clear());
        assert!(has == v.is_some(), "the predicate contradicts the field state");
        let n = v.as_ref().map($crate::built::Num::num);
        if let Some(x) = v {
            std::mem::forget($crate::common::run_now($s.$set(x)));
        }
        n
    }};
}

#[cfg(kani)]
pub mod built_ops {
    use super::*;
    use std::mem::ManuallyDrop;
    const MAX: usize = 8;

    fn can_give<T: Built>(i: usize) -> bool {
        !matches!(T::absent(i), Fixed(_))
    }

    fn check<T: Built>(s: &mut T, vals: &[Option<i32>; MAX]) {
        for i in 0..T::N {
            let expect = match vals[i] {
                Some(x) => Some(x),
                None => match T::absent(i) {
                    Preset(x) => Some(x),
                    Fixed(x) => x,
                    _ => None,
                },
            };
            assert!(s.peek(i) == expect, "the builder has put a wrong value into a field");
        }
    }

    /// An arbitrary set of fields is given arbitrary values, all the required ones among them.
    pub fn values<T: Built>() {
        let (drops0, clones0) = (drops(), clones());
        let mut b = T::builder();
        let mut vals = [None; MAX];
        for i in 0..T::N {
            if can_give::<T>(i) && (T::absent(i) == Required || any()) {
                let x = any();
                b = T::give(b, i, x);
                vals[i] = Some(x);
            }
        }
        let mut b = ManuallyDrop::new(b);
        let Ok(s) = T::build(&mut *b)
        else {
            panic!("the builder fails although it is given all the required values");
        };
        let mut s = ManuallyDrop::new(s);
        assert!(drops() == drops0 && clones() == clones0, "the builder has dropped or duplicated a value");
        check(&mut *s, &vals);
        cover!(true, "reachable");
    }

    /// The last value given for a field is the one it gets, whatever the order of the calls.
    pub fn order<T: Built>() {
        let mut b = T::builder();
        let mut vals = [None; MAX];
        for i in 0..T::N {
            if can_give::<T>(i) {
                b = T::give(b, i, any());
            }
        }
        let mut i = T::N;
        while i > 0 {
            i -= 1;
            if can_give::<T>(i) {
                let x = any();
                b = T::give(b, i, x);
                vals[i] = Some(x);
            }
        }
        let mut b = ManuallyDrop::new(b);
        let Ok(s) = T::build(&mut *b)
        else {
            panic!("the builder fails although it is given all the required values");
        };
        let mut s = ManuallyDrop::new(s);
        check(&mut *s, &vals);
        cover!(true, "reachable");
    }

    /// Fails when a required value is missing; names it. The failure consumes nothing.
    pub fn required<T: Built>() {
        let mut b = T::builder();
        let mut vals = [None; MAX];
        let mut missing = 0;
        for i in 0..T::N {
            if can_give::<T>(i) {
                if any() {
                    let x = any();
                    b = T::give(b, i, x);
                    vals[i] = Some(x);
                }
                else if T::absent(i) == Required {
                    missing += 1;
                }
            }
        }
        assume(missing > 0);
        let (drops0, clones0) = (drops(), clones());
        match T::build(&mut b) {
            Ok(s) => {
                std::mem::forget(s);
                panic!("the builder succeeds without a required value");
            }
            Err(e) => {
                let e = ManuallyDrop::new(e);
                let mut named = false;
                for i in 0..T::N {
                    if T::absent(i) == Required && vals[i].is_none() && e.names(T::name(i)) {
                        named = true;
                    }
                }
                assert!(named, "the error doesn't name a missing field");
            }
        }
        assert!(drops() == drops0 && clones() == clones0, "a failed build has dropped or duplicated a value");
        // Give what's missing
        for i in 0..T::N {
            if T::absent(i) == Required && vals[i].is_none() {
                let x = any();
                b = T::give(b, i, x);
                vals[i] = Some(x);
            }
        }
        let mut b = ManuallyDrop::new(b);
        let Ok(s) = T::build(&mut *b)
        else {
            panic!("the builder fails although it is given all the required values");
        };
        let mut s = ManuallyDrop::new(s);
        check(&mut *s, &vals);
        cover!(true, "reachable");
    }

    #[macro_export]
    macro_rules! built_contracts {
        ($( $op:ident: $( $t:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(9)]
                        pub fn $t() {
                            $crate::built::built_ops::$op::<super::$t>()
                        }
                    )+
                }
            )+
        };
    }
}
