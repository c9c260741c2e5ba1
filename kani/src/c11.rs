//! Struct builders: values and defaults.
#[cfg(kani)]
use crate::{built::built_ops, built_contracts};
#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::shapes::*;
    built_contracts! {
        values: Plain PlainDefaults PlainInto OptIn ByField OffByField Synced SyncDefaults Mixed Async AllLocked AllLazy AllOptional AllInner GenericTok;
        order: Plain PlainDefaults PlainInto OptIn ByField OffByField Synced SyncDefaults Mixed Async AllLocked AllLazy AllOptional AllInner GenericTok;
    }
    pub mod rc {
        use super::*;
        use std::{rc::Rc, sync::Arc};
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn values_plain() {
            built_ops::values::<Rc<Rced>>()
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn values_sync() {
            built_ops::values::<Arc<RcedSync>>()
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn order_plain() {
            built_ops::order::<Rc<Rced>>()
        }
        #[kani::proof]
        #[kani::unwind(9)]
        pub fn order_sync() {
            built_ops::order::<Arc<RcedSync>>()
        }
    }
}
