c("C01", 52, [PROXY_SYNC, GEN + "kani/src/c01.rs"],
  "Interference contracts: an arbitrary complete operation of another thread at every lock point of every operation.")
c("C02", 38, [PROXY_ASYNC, GEN + "kani/src/c02.rs"],
  "Interference contracts over suspension points, plus two-task and cancellation contracts.")
c("C03", 107, [GEN + "kani/src/c03.rs"], "Hoare triples of each method in each abstract state.")
c("C04", 97, [PROXY_SYNC, PROXY_ASYNC, GEN + "kani/src/c04.rs"], "Hoare triples for each outcome of the builder.")
c("C05", 244, [SYNC_LOCK, GEN + "kani/src/c05.rs"], "Hoare triples of each method in each abstract state, frame included.")
c("C06", 83, [PROXY_SYNC, PROXY_ASYNC, GEN + "kani/src/c06.rs"],
  "Sequences of guard operations against the ghost value, plus interference during the guard's lifetime.")
c("C07", 106, [SYNC_LOCK, GEN + "kani/src/c07.rs"],
  "Interference contracts: atomicity of each operation under an arbitrary operation of another thread at each lock point.")
c("C08", 26, [GEN + "kani/src/c08.rs"], "Each accessor and mutable accessor, over all the fields of the struct at once.")
c("C09", 13, [SYNC_LOCK, PROXY_SYNC, PROXY_ASYNC, GEN + "kani/src/c09.rs"],
  "Each setter over all the fields of the struct at once, with ghost counters of clones and drops.")
c("C10", 157, [SYNC_LOCK, PROXY_SYNC, PROXY_ASYNC, "fieldx::plain::OnceCell and the Clone, PartialEq, PartialOrd, Debug, Default, From impls of the containers", GEN + "kani/src/c10.rs"],
  "Contracts of the containers' trait implementations and of the structs' derived ones.")
BUILDER = "every method of the builders generated for the declarations of "
c("C11", 34, [BUILDER + "kani/src/shapes.rs"], "Any subset of values, any order, all the fields observed at once.")
c("C12", 29, [BUILDER + "kani/src/{shapes,c12}.rs", "fieldx::error::FieldXError"], "Any subset of values lacking a required one; repair and rebuild.")
c("C13", 41, [BUILDER + "kani/src/c13.rs"], "The hook's call site under contract: the state it sees, the number of calls, the outcome propagated.")
c("C14", 74, [GEN + "kani/src/{c14,shapes}.rs: new(), Default::default()"],
  "The state of a fresh object observed field by field, and its independence of what's done to others.")
c("C15", 104, [GEN + "kani/src/c15.rs: new(), build(), myself(), myself_downgrade()"],
  "Reference counts, identity and destruction as ghost-checked post-conditions of constructors and of every helper.")
c("C16", 46, [GEN + "kani/src/c16.rs: From<S> for the shadow struct, From<shadow> for S, Default of the shadow, functions for defaults", "the code serde_derive makes of the shadow's attributes"],
  "Contracts of serialize and deserialize over a symbolic record: any state, and any combination of missing, null and given values.")
c("C17", 16, [GEN + "kani/src/c17.rs"], "Every helper via a shared reference over all the fields of the struct at once; borrow state afterwards.")
c("C18", 149, [GEN + "kani/src/{c18_gen,c18_more,c18_vis}.rs, made by tools/gen_matrix.py"],
  "Contracts derived from the precedence rules, independently of the macro, for every cell of the argument matrix: the type, the presence and the effect of every helper. Visibility is obligations of rustc's type checker over the same sources.")
c("C20", 28, [GEN + "kani/src/c20_gen.rs, made by tools/gen_matrix.py"],
  "Each helper under the name the rules give, its type, and its frame: it is its own field which is affected, and no other.")
c("C21", 213, [SYNC_LOCK, PROXY_SYNC, PROXY_ASYNC, GEN + "kani/src/c21.rs"],
  "Contracts over pairs of guards and of the lock state after each operation.")
n("C22", "Kani's semantics of a panic is abort: neither unwinding nor catch_unwind has a contract there, so the state left behind by a panicking builder is out of the verifier's reach.")
n("C23", "Liveness (freedom from deadlock and lost wake-ups in unbounded schedules): contracts discharged by Kani are partial-correctness ones; a waiting thread is a path cut off. Self-deadlock is a safety fact and is an obligation of the claimed properties.")
n("C24", "Send/Sync of generated types is a fact of the type system that rustc decides on its own; there is no run-time state a contract could speak of.")
n("C19", "Rejection of a declaration is an event of compilation, there is nothing to execute.")
for i in titles:
    if i not in checks and i not in na:
        n(i, "not built yet")
