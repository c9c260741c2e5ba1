//! Lazy fields of thread-safe structs: at most one build per unset period under any interleaving.
use crate::common::*;
use crate::{subject::Subject, sync_lazy};
use fieldx::fxstruct;

#[fxstruct(sync)]
pub struct Explicit {
    #[fieldx(lazy, clearer, predicate, reader, writer, set, get_mut)]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: u8,
}
impl Explicit {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct(sync, lazy, clearer, predicate, reader, writer, set, get(copy), get_mut)]
pub struct Inherited {
    v: i32,
}
impl Inherited {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct(sync, rc)]
pub struct Counted {
    #[fieldx(lazy, get(clone), reader, clearer, predicate, writer, set, get_mut)]
    v: i32,
}
impl Counted {
    fn build_v(&self) -> i32 {
        build()
    }
}

#[fxstruct]
pub struct PerField {
    #[fieldx(mode(sync), lazy("compose"), reader("rd"), clearer("reset"), predicate("ready"), writer, set("put"), get_mut)]
    v: i32,
}
impl PerField {
    fn compose(&self) -> i32 {
        build()
    }
}

sync_lazy!(Explicit, Explicit, Explicit::new(), |s| *s.v(), read_v, set_v, clear_v, has_v);
sync_lazy!(Inherited, Inherited, Inherited::new(), |s| s.v(), read_v, set_v, clear_v, has_v);
sync_lazy!(PerField, PerField, PerField::new(), |s| *s.rd(), rd, put, reset, ready);
pub struct CountedHandle(std::sync::Arc<Counted>);
impl std::ops::Deref for CountedHandle {
    type Target = Counted;
    fn deref(&self) -> &Counted {
        &self.0
    }
}
sync_lazy!(CountedHandle, Counted, CountedHandle(Counted::new()), |s| s.v(), read_v, set_v, clear_v, has_v);

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::interference_contracts;

    interference_contracts!(lin_explicit: Explicit, env_lin, finish, true;
        op_read, op_hold, op_modify, op_set, op_clear, op_has, op_wr_store, op_wr_clear);
    interference_contracts!(pub_explicit: Explicit, env_pub, finish_pub, false;
        op_read, op_modify, op_set, op_clear, op_wr_store, op_wr_clear);
    interference_contracts!(lin_inherited: Inherited, env_lin, finish, true; op_read, op_hold, op_modify, op_set);
    interference_contracts!(lin_counted: CountedHandle, env_lin, finish, true; op_read, op_hold, op_modify, op_set);
    interference_contracts!(lin_perfield: PerField, env_lin, finish, true; op_read, op_hold, op_modify, op_set);
}
