//! Lock-protected fields which aren't lazy: each operation is one atomic step.
use crate::{common::*, locked, subject::Subject};
use fieldx::fxstruct;

#[fxstruct(sync)]
pub struct Locked {
    #[fieldx(lock, get, get_mut, set, reader, writer, default(5))]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: u8,
}
locked! { Locked; clearable: false; make: Locked::new(); init: Some(5);
    read: |s| *s.v(); hold: |s| s.read_v(); modify: |s| s.v_mut(); writer: |s| s.write_v(); set: |s, x| s.set_v(x);
}

#[fxstruct(sync, lock, get(copy), get_mut, set(into))]
pub struct Inherited {
    v: i32,
    other: u8,
}
locked! { Inherited; clearable: false; make: Inherited::new(); init: Some(0);
    read: |s| s.v(); modify: |s| s.v_mut(); set: |s, x| s.set_v(x);
}

/// The lock is implied by `reader`
#[fxstruct]
pub struct ByReader {
    #[fieldx(reader("rd"), get(clone), set("put"))]
    v: i32,
    #[fieldx(lock, get(copy), set)]
    other: u8,
}
locked! { ByReader; clearable: false; make: ByReader::new(); init: Some(0);
    read: |s| s.v(); hold: |s| s.rd(); set: |s, x| s.put(x);
}

/// The lock is implied by `writer`
#[fxstruct(sync)]
pub struct ByWriter {
    #[fieldx(writer, get(copy), set)]
    v: i32,
}
locked! { ByWriter; clearable: false; make: ByWriter::new(); init: Some(0);
    read: |s| s.v(); modify: |s| s.write_v(); writer: |s| s.write_v(); set: |s, x| s.set_v(x);
}

#[fxstruct(sync)]
pub struct Opt {
    #[fieldx(optional, get, get_mut, set, reader, writer, clearer, predicate)]
    v: i32,
    #[fieldx(optional, get(copy), set, clearer)]
    other: u8,
}
locked! { Opt; clearable: true; make: Opt::new(); init: None;
    read: |s| *s.v(); hold: |s| s.read_v(); modify: |s| s.v_mut(); writer: |s| s.write_v(); set: |s, x| s.set_v(x);
    clear: |s| s.clear_v(); has: |s| s.has_v();
}

#[fxstruct(sync, clearer, predicate, set, get(copy), get_mut)]
pub struct OptInherited {
    v: i32,
    other: u8,
}
locked! { OptInherited; clearable: true; make: OptInherited::new(); init: None;
    read: |s| s.v(); modify: |s| s.v_mut(); set: |s, x| s.set_v(x); clear: |s| s.clear_v(); has: |s| s.has_v();
}

#[fxstruct(sync, rc)]
pub struct Counted {
    #[fieldx(lock, get, get_mut, set, default(5))]
    v: i32,
}
pub struct Handle(std::sync::Arc<Counted>);
locked! { Handle; clearable: false; make: Handle(Counted::new()); init: Some(5);
    read: |s| *s.0.v(); hold: |s| s.0.v(); modify: |s| s.0.v_mut(); set: |s, x| s.0.set_v(x);
}

#[fxstruct(r#async)]
pub struct AsyncLocked {
    #[fieldx(lock, get, set, reader, writer, default(5))]
    v: i32,
}
locked! { AsyncLocked; clearable: false; make: AsyncLocked::new(); init: Some(5);
    read: |s| *run_now(s.v()); hold: |s| run_now(s.read_v()); modify: |s| run_now(s.write_v());
    writer: |s| run_now(s.write_v()); set: |s, x| run_now(s.set_v(x));
}

#[fxstruct(r#async)]
pub struct AsyncOpt {
    #[fieldx(optional, get, set, reader, writer, clearer, predicate)]
    v: i32,
}
locked! { AsyncOpt; clearable: true; make: AsyncOpt::new(); init: None;
    read: |s| *run_now(s.v()); hold: |s| run_now(s.read_v()); modify: |s| run_now(s.write_v());
    writer: |s| run_now(s.write_v()); set: |s, x| run_now(s.set_v(x)); clear: |s| run_now(s.clear_v());
    has: |s| run_now(s.has_v());
}

#[fxstruct(r#async, clearer, predicate, set, reader, writer)]
pub struct AsyncOptInherited {
    v: i32,
}
locked! { AsyncOptInherited; clearable: true; make: AsyncOptInherited::new(); init: None;
    read: |s| *run_now(s.read_v()); hold: |s| run_now(s.read_v()); modify: |s| run_now(s.write_v());
    writer: |s| run_now(s.write_v()); set: |s, x| run_now(s.set_v(x)); clear: |s| run_now(s.clear_v());
    has: |s| run_now(s.has_v());
}

#[cfg(kani)]
pub mod proofs {
    use super::*;
    use crate::interference_contracts;

    interference_contracts!(lin_locked: Locked, env_lin, finish, true; op_read, op_hold, op_modify, op_set, op_wr_store);
    interference_contracts!(lin_inherited: Inherited, env_lin, finish, true; op_read, op_modify, op_set);
    interference_contracts!(lin_by_reader: ByReader, env_lin, finish, true; op_read, op_hold, op_set);
    interference_contracts!(lin_by_writer: ByWriter, env_lin, finish, true; op_read, op_modify, op_set, op_wr_store);
    interference_contracts!(lin_opt: Opt, env_lin, finish, true;
        op_read, op_hold, op_modify, op_set, op_clear, op_has, op_wr_store, op_wr_clear);
    interference_contracts!(lin_opt_inherited: OptInherited, env_lin, finish, true;
        op_read, op_modify, op_set, op_clear, op_has);
    interference_contracts!(lin_counted: Handle, env_lin, finish, true; op_read, op_hold, op_modify, op_set);
    interference_contracts!(lin_async_locked: AsyncLocked, env_lin, finish, true; op_read, op_hold, op_modify, op_set, op_wr_store);
    interference_contracts!(lin_async_opt: AsyncOpt, env_lin, finish, true;
        op_read, op_hold, op_modify, op_set, op_clear, op_has, op_wr_store, op_wr_clear);
    interference_contracts!(lin_async_opt_inherited: AsyncOptInherited, env_lin, finish, true;
        op_read, op_hold, op_modify, op_set, op_clear, op_has, op_wr_store, op_wr_clear);
}
