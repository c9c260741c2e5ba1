//! Sequential contracts: Hoare triples for every method of a container, with an arbitrary valid state as the precondition
//! and the abstract value [`g`] in the role of the specification.
use crate::common::*;
use crate::subject::Subject;

/// A field `v`, whatever mode the struct is of.  Operations the field doesn't provide are never called.
pub trait Seq: Sized {
    const LAZY: bool;
    /// The struct as it is created, `v` is unset or, if it has a default, is set to it.
    fn make() -> Self;
    /// What `make` sets the field to
    fn initial() -> Option<i32> {
        None
    }
    fn read(&mut self) -> Option<i32> {
        unreachable!()
    }
    fn modify(&mut self, _: i32) -> Option<i32> {
        unreachable!()
    }
    fn set(&mut self, _: i32) -> Option<i32> {
        unreachable!()
    }
    fn clear(&mut self) -> Option<i32> {
        unreachable!()
    }
    fn has(&mut self) -> bool {
        unreachable!()
    }
    /// Another field of the struct that none of the operations is allowed to change.
    fn frame(&mut self) -> Option<i32> {
        None
    }
    fn set_frame(&mut self, _: i32) {}
}

/// A thread-safe subject, when nobody else is around.
pub struct Shared<S>(pub S);
impl<S: Subject> Seq for Shared<S> {
    const LAZY: bool = S::LAZY;
    fn make() -> Self {
        Self(S::make())
    }
    fn read(&mut self) -> Option<i32> {
        self.0.read()
    }
    fn modify(&mut self, x: i32) -> Option<i32> {
        self.0.modify(x, || ())
    }
    fn set(&mut self, v: i32) -> Option<i32> {
        self.0.set(v)
    }
    fn clear(&mut self) -> Option<i32> {
        self.0.clear()
    }
    fn has(&mut self) -> bool {
        self.0.has()
    }
}

/// Implements `Seq`, operations not listed aren't provided by the field.
#[macro_export]
macro_rules! seq_subject {
    ($t:ty; lazy: $lazy:literal; make: $make:expr; init: $init:expr; $( $rest:tt )*) => {
        impl $crate::seq::Seq for $t {
            const LAZY: bool = $lazy;
            fn make() -> Self {
                $make
            }
            fn initial() -> Option<i32> {
                $init
            }
            $crate::seq_subject!(@op $( $rest )*);
        }
    };
    (@op read: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn read(&mut self) -> Option<i32> {
            let $s = self;
            $e
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op modify: |$s:ident, $x:ident| $e:expr; $( $rest:tt )*) => {
        fn modify(&mut self, $x: i32) -> Option<i32> {
            let $s = self;
            $e
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op set: |$s:ident, $x:ident| $e:expr; $( $rest:tt )*) => {
        fn set(&mut self, $x: i32) -> Option<i32> {
            let $s = self;
            $e
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op clear: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn clear(&mut self) -> Option<i32> {
            let $s = self;
            $e
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op has: |$s:ident| $e:expr; $( $rest:tt )*) => {
        fn has(&mut self) -> bool {
            let $s = self;
            $e
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op frame: |$s:ident| $e:expr, |$s2:ident, $x:ident| $e2:expr; $( $rest:tt )*) => {
        fn frame(&mut self) -> Option<i32> {
            let $s = self;
            Some($e)
        }
        fn set_frame(&mut self, $x: i32) {
            let $s2 = self;
            let _ = $e2;
        }
        $crate::seq_subject!(@op $( $rest )*);
    };
    (@op) => {};
}

#[cfg(kani)]
pub mod seq_ops {
    use super::*;

    /// requires: nothing. ensures: a lazy field is built if it was unset and only then; the current value is returned.
    pub fn read<S: Seq>(s: &mut S) {
        let pre = g();
        let n = builds();
        let r = s.read();
        if S::LAZY && pre.is_none() {
            assert!(builds() == n + 1, "reading an unset lazy field must build it once");
            assert!(r == Some(res()), "the reader must return what the builder has produced");
        }
        else {
            assert!(builds() == n, "reading must not call the builder as the field has a value");
            assert!(r == pre, "the reader must return the current value");
        }
        assert!(g() == r);
        // ... and the next one returns the same
        let n = builds();
        assert!(s.read() == r && builds() == n, "repeated reading must return the same value and never build");
    }
    pub fn modify<S: Seq>(s: &mut S) {
        let pre = g();
        let n = builds();
        let x = any();
        let r = s.modify(x);
        if S::LAZY && pre.is_none() {
            assert!(builds() == n + 1, "mutable access to an unset lazy field must build it once");
            assert!(r == Some(res()), "mutable accessor must give access to what the builder has produced");
        }
        else {
            assert!(builds() == n, "mutable access must not call the builder as the field has a value");
            assert!(r == pre, "mutable accessor must give access to the current value");
        }
        if r.is_some() {
            set_g(Some(x));
        }
    }
    pub fn set<S: Seq>(s: &mut S) {
        let pre = g();
        let n = builds();
        let x = any();
        let r = s.set(x);
        assert!(r == pre, "the setter must return the value it replaces");
        assert!(builds() == n, "the setter must not call the builder");
        set_g(Some(x));
    }
    pub fn clear<S: Seq>(s: &mut S) {
        let pre = g();
        let n = builds();
        let r = s.clear();
        assert!(r == pre, "the clearer must return the value it removes");
        assert!(builds() == n, "the clearer must not call the builder");
        set_g(None);
    }
    pub fn has<S: Seq>(s: &mut S) {
        let n = builds();
        assert!(s.has() == g().is_some(), "the predicate contradicts the field state");
        assert!(builds() == n, "the predicate must not call the builder");
    }

    /// States the operation is to be checked in.
    #[derive(Clone, Copy, PartialEq)]
    pub enum Pre {
        New,
        Set,
        /// Set and cleared
        Cleared,
    }

    pub fn check<S: Seq>(s: &mut S, pre: Pre, op: fn(&mut S)) {
        set_res(any());
        assert!(builds() == 0, "construction must not call the builder");
        set_g(S::initial());
        let frame = any();
        s.set_frame(frame);
        if pre != Pre::New {
            let x = any();
            assert!(s.set(x) == S::initial(), "the setter must return the value it replaces");
            set_g(Some(x));
        }
        if pre == Pre::Cleared {
            assert!(s.clear() == g(), "the clearer must return the value it removes");
            set_g(None);
        }
        op(s);
        cover!(true, "reachable");
        assert!(s.frame().unwrap_or(frame) == frame, "another field has been changed");
        // The value is observed via reading except when that'd start a build. A build is what has to happen then.
        let n = builds();
        let expect = if S::LAZY && g().is_none() { Some(res()) } else { g() };
        let nb = if S::LAZY && g().is_none() { n + 1 } else { n };
        assert!(s.read() == expect, "the operation has left a wrong value in the field");
        assert!(builds() == nb, "wrong number of lazy builder calls");
    }

    #[macro_export]
    macro_rules! seq_contracts {
        ($m:ident: $t:ty) => {
            $crate::seq_contracts!($m: $t; read: New Set Cleared; modify: New Set Cleared; set: New Set Cleared;
                clear: New Set Cleared; has: New Set Cleared);
        };
        ($m:ident: $t:ty; $( $op:ident: $( $pre:ident )+ );+ $(;)?) => {
            pub mod $m {
                use super::*;
                use $crate::{common::*, seq::{*, seq_ops::Pre}};
                $(
                    #[allow(non_snake_case)]
                    pub mod $op {
                        use super::*;
                        $(
                            #[kani::proof]
                            #[kani::unwind(2)]
                            pub fn $pre() {
                                let mut s = std::mem::ManuallyDrop::new(<$t as Seq>::make());
                                $crate::seq::seq_ops::check(&mut *s, Pre::$pre, $crate::seq::seq_ops::$op::<$t>);
                            }
                        )+
                    }
                )+
            }
        };
    }
}
