//! Contracts of all the fields of a struct at once: what one method does to its own field and to all the others.
use crate::common::*;

/// A struct of `N` fields, `view` and `mutate` observe and change field number `i` with its accessors.
pub trait Forms: Sized {
    const N: usize;
    fn make() -> Self;
    /// What the field has initially
    fn initial(_: usize) -> Option<i32>;
    /// Calls the setter, returns what the setter returns
    fn set(&mut self, i: usize, x: i32) -> Option<i32>;
    fn view(&mut self, i: usize) -> Option<i32>;
    /// Returns false if there is no mutable accessor
    fn mutate(&mut self, i: usize, x: i32) -> bool;
}

#[macro_export]
macro_rules! forms {
    ($t:ty, $make:expr; $( $init:expr; set |$s:ident, $x:ident| $set:expr; view |$v:ident| $view:expr $(; mutate |$ms:ident, $mx:ident| $mutate:expr)? ),+ $(,)?) => {
        impl $crate::forms::Forms for $t {
            const N: usize = 0 $( + { let _ = stringify!($init); 1 } )+;
            fn make() -> Self {
                $make
            }
            fn initial(i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        return $init;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn set(&mut self, i: usize, x: i32) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        let $s = self;
                        let $x = x;
                        return $set;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn view(&mut self, i: usize) -> Option<i32> {
                let mut k = 0;
                $(
                    if i == k {
                        let $v = self;
                        return $view;
                    }
                    k += 1;
                )+
                unreachable!()
            }
            fn mutate(&mut self, i: usize, x: i32) -> bool {
                let mut k = 0;
                $(
                    if i == k {
                        $(
                            let $ms = self;
                            let $mx = x;
                            $mutate;
                            return true;
                        )?
                        #[allow(unreachable_code)]
                        return false;
                    }
                    k += 1;
                )+
                unreachable!()
            }
        }
    };
}

#[cfg(kani)]
pub mod forms_ops {
    use super::*;
    use std::mem::ManuallyDrop;

    const MAX: usize = 8;

    fn arbitrary<T: Forms>() -> (ManuallyDrop<T>, [Option<i32>; MAX]) {
        assert!(T::N <= MAX);
        let mut s = ManuallyDrop::new(T::make());
        let mut vals = [None; MAX];
        for i in 0..T::N {
            let x = any();
            s.set(i, x);
            vals[i] = Some(x);
        }
        (s, vals)
    }

    fn check<T: Forms>(s: &mut T, vals: &[Option<i32>; MAX]) {
        for i in 0..T::N {
            assert!(s.view(i) == vals[i], "an accessor returns a wrong value");
        }
    }

    /// Accessors return the values of their fields, calling them changes nothing
    pub fn view<T: Forms>() {
        let (mut s, vals) = arbitrary::<T>();
        check(&mut *s, &vals);
        check(&mut *s, &vals);
        cover!(true, "reachable");
    }

    /// What is written via a mutable accessor gets into its field, and into no other
    pub fn mutate<T: Forms>() {
        let (mut s, mut vals) = arbitrary::<T>();
        for i in 0..T::N {
            let x = any();
            if s.mutate(i, x) {
                vals[i] = Some(x);
                check(&mut *s, &vals);
            }
        }
        cover!(true, "reachable");
    }

    /// A setter returns what it replaces, nothing is dropped or cloned
    pub fn set<T: Forms>() {
        let mut s = ManuallyDrop::new(T::make());
        let mut vals = [None; MAX];
        for i in 0..T::N {
            vals[i] = T::initial(i);
        }
        let (drops0, clones0) = (drops(), clones());
        let mut round = 0;
        while round < 2 {
            for i in 0..T::N {
                let x = any();
                assert!(s.set(i, x) == vals[i], "the setter must return the value it replaces");
                vals[i] = Some(x);
            }
            round += 1;
        }
        assert!(drops() == drops0, "the setter has dropped a value");
        assert!(clones() == clones0, "the setter has duplicated a value");
        check(&mut *s, &vals);
        // Only own field is changed
        for i in 0..T::N {
            let x = any();
            s.set(i, x);
            vals[i] = Some(x);
            check(&mut *s, &vals);
        }
        cover!(true, "reachable");
    }

    #[macro_export]
    macro_rules! forms_contracts {
        ($( $op:ident: $( $t:ident )+; )+) => {
            $(
                #[allow(non_snake_case)]
                pub mod $op {
                    use super::*;
                    $(
                        #[kani::proof]
                        #[kani::unwind(9)]
                        pub fn $t() {
                            $crate::forms::forms_ops::$op::<super::$t>()
                        }
                    )+
                }
            )+
        };
    }
}
