#!/usr/bin/env python3
"""Writes /verif/properties.jsonl"""
import json
D = "fieldx_derive/src/"
P, S, CT, CG, FC = D+"codegen/plain.rs", D+"codegen/sync.rs", D+"codegen/codegen_trait.rs", D+"codegen.rs", D+"ctx/field.rs"
SP, AP, SL, AL = "fieldx/src/sync/fxproxy.rs", "fieldx/src/async/fxproxy.rs", "fieldx/src/sync/fxlock.rs", "fieldx/src/async/fxlock.rs"
SER = D+"codegen/serde.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})

p("C01", "A lazy field of a thread-safe struct is built exactly once per unset period",
  "However reads, mutable accesses, sets, clears and writer-guard operations of any number of threads interleave, the builder of a lazy field runs only while the field has no value and no other build of it is in progress, and every reader gets the value that is current at that point. A value stored by one thread is never overwritten or lost because of a build or another operation another thread has started. The presence predicate agrees with the field once an operation is over.",
  ["schedules", "inputs", "histories"], "every interleaving of complete operations of other threads between the steps of an operation, every value, set and unset fields, explicit and inherited declarations",
  "The tests race a few threads and count builder calls; a check-then-act hole needs a particular thread switch between dropping one lock and taking another.",
  [SP, S, D+"codegen/sync/impl_sync.rs"],
  [("check, build and store under one lock", SP+": FXProxySync::read_or_init"), ("presence flag", SP+": is_set, clear_with_lock, FXWrLockGuardSync::store"), ("generated accessors", S+": field_accessor, field_reader_method, field_setter, field_clearer, field_writer")])
p("C02", "An async lazy field is built once per unset period, cancellation included",
  "Whatever tasks read, set, clear or mutate a lazy field of an async struct, and wherever they are suspended, the builder runs only while the field has no value and no other build of it is in progress; a task arriving during a build waits for it and gets the value built. Dropping a task in the middle of the build leaves the field unset, unlocked and buildable by the next one.",
  ["schedules", "inputs", "histories", "fault_sequences"], "every complete operation of other tasks at every suspension and lock point of an operation; suspension and cancellation inside of the builder; every value",
  "The tests spawn a handful of tasks and never cancel one while its builder is suspended.",
  [AP, S, D+"codegen/sync/impl_async.rs"],
  [("check, build and store under one write lock", AP+": FXProxyAsync::read_or_init"), ("presence flag", AP+": is_set, clear_with_lock, FXWrLockGuardAsync::store"), ("boxed builder wrapper", D+"codegen/sync/impl_async.rs: lazy_wrapper_fn")])
p("C03", "A plain lazy field is built on demand, once, and keeps its value until cleared",
  "The builder of a lazy field of a plain struct isn't called by construction, predicate, setter or clearer; reading or mutably accessing the unset field calls it exactly once, and later accesses return the same value without calling it. A value set by the setter, the struct builder or a declared default suppresses the build; clearing makes the next access build anew from the current state of the struct.",
  ["histories", "inputs", "configurations"], "every operation in every reachable state of the field with arbitrary values; inherited, renamed, generic, reference-counted, default- and builder-provided declarations",
  "The tests run a few fixed sequences with fixed values.",
  [P, CT], [("get-or-init accessors", P+": field_accessor, field_accessor_mut, field_lazy_initializer"), ("setter and clearer", P+": field_setter, field_clearer"), ("initial value", P+": field_value_wrap, field_default_wrap")])
p("C04", "A failing lazy builder returns its error and leaves the field unset",
  "When the builder of a fallible lazy field fails, the access returns exactly that error, the field stays unset, its predicate denies a value, and no lock remains held. The next access calls the builder again and may succeed. A field which has a value never reports an error.",
  ["fault_sequences", "inputs", "histories"], "every outcome of the builder on every access, every error and value, every access method, plain, sync and async",
  "The tests use a builder with a constant outcome; error followed by success, set or clear isn't exercised.",
  [SP, AP, P, S], [("error propagation", SP+": read_or_init, try_read, try_read_mut"), ("error propagation", AP+": read_or_init, try_read, try_read_mut"), ("fallible return types", CT+": fallible_return_type"), ("get_or_try_init", P+": get_or_init_method")])
p("C05", "Predicate, setter, clearer and accessor of an optional field agree",
  "The predicate of an optional field is true exactly when the field has a value: never for a fresh field without a default, always after a set or construction with a value, never after a clear. The clearer returns the value removed or nothing; a cleared field reads as empty and other fields aren't touched.",
  ["histories", "inputs", "configurations"], "every operation in every state with arbitrary values; plain, sync (locked and not), async and interior-mutable fields, explicit and implied optionality",
  "The tests check single fixed transitions of a few declarations.",
  [P, S, FC], [("generated methods", P+": field_predicate, field_clearer, field_setter"), ("generated methods", S+": field_predicate, field_clearer, field_setter"), ("implied optionality", FC+": is_optional")])
p("C06", "The writer guard of a lazy field stores and clears without ever building",
  "Obtaining the writer of a lazy field, storing via it and clearing via it never call the builder. Each store or clear returns the value the field had right before it, the last one defines the field after the guard is gone, and the predicate agrees with it. Nobody else can access the field while the guard is alive.",
  ["histories", "inputs", "schedules"], "every sequence of up to three guard operations (more by induction over the state) from every state, arbitrary values, sync and async",
  "The tests store once into an unset field.",
  [SP, AP, S], [("guard", SP+": FXWrLockGuardSync::store, clear"), ("guard", AP+": FXWrLockGuardAsync::store, clear"), ("accessor", S+": field_writer")])
p("C07", "Operations of lock-protected fields are atomic",
  "Every operation of a non-lazy lock-protected field of a sync or async struct is one atomic step with respect to other threads or tasks: the setter returns precisely the value it replaces, the clearer the value it removes, a read guard pins the value for its lifetime, and a mutable guard excludes everybody else. No update is lost.",
  ["schedules", "inputs"], "every complete operation of others at every lock point, arbitrary values; locked, optional, reader/writer-implied and struct-level locks, sync and async",
  "The tests have a few threads increment counters; a non-atomic read-then-write needs a thread switch in a window of nanoseconds.",
  [S, SL, AL], [("lock container", SL), ("lock container", AL), ("generated methods", S+": field_setter, field_clearer, field_accessor, field_reader_method, field_writer, field_accessor_mut")])
p("C08", "Accessors return the current value and mutable accessors write through",
  "An accessor returns the current value of its own field in the declared form (a reference, a copy, a clone, or a reference inside of an option), and calling it changes nothing. What is written through a mutable accessor is what all the other accessors return next, and only that field changes.",
  ["inputs", "configurations"], "arbitrary values, each accessor form on each kind of field (plain, optional, locked, lazy) of plain, sync and async structs",
  "The tests check single values with few combinations of accessor form and field kind.",
  [P, S, FC], [("accessors", P+": field_accessor, field_accessor_mut"), ("accessors", S+": field_accessor, field_accessor_mut"), ("accessor form", FC+": accessor_mode, is_copy, is_clone")])
p("C09", "A setter stores the value given and returns the one it replaces",
  "A setter stores exactly the value given (after the declared conversion), returns the previous value (or nothing if there was none), and changes nothing else; it never drops or duplicates a value.",
  ["inputs", "histories", "configurations"], "arbitrary values and states, each field kind and mode, with and without conversion, names and prefixes explicit or not",
  "The tests set constants into a few kinds of fields and rarely look at the value returned.",
  [P, S, CT], [("setters", P+": field_setter"), ("setters", S+": field_setter"), ("conversion", CT+": into_toks")])
p("C10", "Copies of field containers are equal, independent, and keep the presence",
  "Cloning a struct or a container of a lazy or lock-protected field yields one with the same value and the same presence, which can be changed without affecting the original and which can still be built. Comparison, unwrapping and conversions of containers are those of the values inside.",
  ["inputs", "histories"], "arbitrary values, set and unset containers, sync, async and plain",
  "The tests clone only on the way to serialization.",
  [SP, SL, AL], [("Clone, PartialEq", SP), ("Clone, PartialEq, From, into_inner, Default", SL), ("From, into_inner, Default", AL)])
p("C11", "The struct builder puts every value into its field and defaults the rest",
  "A struct made by its builder has in every field the last value given for that field, converted as declared, whatever the order of the calls; a field not given a value has its declared default, otherwise it is unset if lazy or optional. Lazy builders aren't called by the process.",
  ["inputs", "histories", "configurations"], "arbitrary values, every subset of fields given, every kind of field, plain, sync and async structs, generics, reference counting",
  "The tests build with fixed sets of constants.",
  [CG, CT, P, S], [("builder methods", CT+": field_builder"), ("field initialisation", P+": field_builder_setter"), ("field initialisation", S+": field_builder_setter"), ("construction", CG+": builder_impl"), ("value selection", CT+": field_builder_value_for_set, simple_field_build_setter")])
p("C12", "The struct builder refuses to build without a required value and loses nothing",
  "Building fails if, and only if, a required field (a field without default which is neither lazy nor optional, or one explicitly declared required) isn't given a value; the error names such a field. The failure consumes nothing: after the missing value is supplied the same builder succeeds with all the values given before.",
  ["inputs", "histories", "configurations"], "arbitrary values, every subset of required and non-required fields given, all modes",
  "The tests leave out one fixed field and drop the builder after the failure.",
  [CT, CG], [("requirement check", CT+": field_builder_value_required"), ("check before construction", CG+": builder_impl"), ("error", "fieldx/src/error.rs")])
p("C13", "Post-build hook runs once on the complete object and decides the outcome",
  "The declared post-build method is called exactly once per successful construction, on an object with all its fields in place, and what it returns is what the builder returns; it isn't called when a required value is missing. With a custom error type every failure, the missing value included, comes as the declared error.",
  ["inputs", "fault_sequences"], "arbitrary values and outcomes of the hook, missing and supplied fields, custom error type or variant, plain and reference-counted structs",
  "The tests use hooks with fixed outcomes.",
  [CG, CT, D+"ctx/codegen.rs"], [("hook call", CT+": maybe_ref_counted_create"), ("error types", CT+": field_builder_value_required"), ("hook name and error", D+"ctx/codegen.rs: builder_post_build_ident, builder_error_type, builder_error_variant")])
p("C14", "A fresh struct has declared defaults, unset lazy and optional fields otherwise",
  "The constructor and the default implementation produce the same object: each field has its declared default, a lazy or optional field without one is unset, any other is the default of its type. No lazy builder is called, and every object is independent of the others.",
  ["configurations", "histories"], "each field kind and mode with and without a default, literals, paths and expressions as defaults",
  "The tests look at a few defaults of plain fields.",
  [CT, P, S, CG], [("default values", CT+": field_default_value, field_default"), ("wrapping", P+": field_value_wrap"), ("wrapping", S+": field_value_wrap"), ("constructor", CG+": struct_extras, default_impl")])
p("C15", "A reference-counted struct reaches itself without keeping itself alive",
  "The self-reference method of a reference-counted struct returns the very allocation the object lives in as long as it is alive, and the weak one gives nothing after that. Neither construction, the builder, nor any accessor leaves an extra strong reference, so that dropping the last handle destroys the object; cloned handles see each other's changes.",
  ["histories", "inputs"], "plain and sync, construction by constructor and builder, lazy builds in the meantime, renamed methods",
  "The tests compare one pointer.",
  [CG, CT], [("self reference methods", CG+": myself_methods, prepare_ref_counted"), ("construction", CT+": maybe_ref_counted_create, maybe_ref_counted_self")])
p("C16", "Serialization and deserialization preserve every declared field",
  "Serializing a struct yields, under the declared names, precisely the fields which are declared serializable: each with its current value, an unset optional field as null, an unset lazy field as the value its builder makes, while the object itself stays as it was. Deserializing gives every field the value from the input; a lazy or optional field which is null or missing is unset; a missing field takes the default declared for serialization, that of the field before that of the struct, and is an error if there is none; a field which is not deserializable has what a new object has. Thus what is serialized deserializes into an equal object.",
  ["inputs", "configurations"], "arbitrary values, every presence combination, renamed, skipped, one-direction and defaulted fields, plain and sync structs",
  "The tests round-trip fixed objects via one format.",
  [SER, P, S], [("shadow struct", SER), ("moving fields", P+": field_from_shadow, field_from_struct"), ("moving fields", S+": field_from_shadow, field_from_struct")])
p("C17", "Interior-mutable fields behave as ordinary ones via a shared reference",
  "A field with interior mutability can be read, set, mutated and, if optional, cleared via a shared reference; the setter returns the previous value, every accessor sees the latest value, and a copying or cloning accessor keeps no borrow. Other fields aren't affected.",
  ["inputs", "histories"], "arbitrary values and states; plain and optional, each accessor form, builder- and default-provided values",
  "The tests walk one path per declaration.",
  [P], [("generated methods", P+": field_accessor, field_accessor_mut, field_setter, field_clearer, field_predicate"), ("wrapping", P+": field_value_wrap, field_builder_setter")])
p("C18", "A field-level argument overrides the struct-level one",
  "For each argument accepted on both levels, an argument of a field decides for that field, switched off included; otherwise the struct-level argument decides, and otherwise the documented default. Neighbouring fields aren't affected by a field's arguments, unless the struct has no mode of its own: then a mode given to a field stands for the struct.",
  ["configurations"], "each helper and mode argument: the whole matrix of absent, on and off at both levels",
  "The tests declare what they need; combinations of levels are hardly present.",
  [FC, D+"fields.rs", D+"util/args.rs", D+"util.rs"], [("argument resolution", FC+": helper_fn_ctx, needs_*, is_*"), ("field arguments", D+"fields.rs"), ("struct arguments", D+"util/args.rs")])
p("C19", "Contradicting arguments are rejected",
  "A declaration which combines arguments documented as mutually exclusive doesn't compile, and every other combination isn't rejected on these grounds.",
  ["configurations"], "every subset of the arguments on either level",
  "The compile-fail tests have a few combinations.",
  ["fieldx_aux/src/lib.rs", D+"util/args.rs", D+"fields.rs"], [("exclusive groups", D+"util/args.rs: validate_exclusives"), ("exclusive groups", D+"fields.rs: validate_exclusives")])
p("C20", "Helpers have the declared names and act on their own fields",
  "A helper is available under its explicit name, else under the struct-level prefix and the field's base name, else under the default prefix and suffix; and it operates on the field it was declared for. The same is about the names of lazy builders and struct builder methods.",
  ["configurations", "inputs"], "each helper with default, prefixed, explicit and base-name naming on structs of several fields of the same type, all modes",
  "The tests have explicit names for a few helpers.",
  [CT, D+"helper.rs"], [("name resolution", CT+": helper_name"), ("default affixes", D+"helper.rs")])
p("C21", "Read guards are shared, write guards are exclusive, and all are released",
  "Any number of read guards of the same protected field can be alive at once, in one thread or task as well; while there is one, nothing can change the field. A mutable or writer guard excludes any other guard. When a guard is dropped or an operation completes, fails or is cancelled, the field is accessible again.",
  ["schedules", "histories"], "every pair of operations on lazy, optional and locked fields of sync and async structs, set and unset",
  "The tests never hold two guards.",
  [SP, AP, SL, AL, S], [("guards", SP+": read, read_mut, write"), ("guards", AP+": read, read_mut, write"), ("generated methods", S)])
p("C22", "A panicking lazy builder leaves the struct usable",
  "If a lazy builder panics then the field stays unset, isn't locked, and the next access calls the builder again.",
  ["fault_sequences", "crash_points"], "a panic at any point of any builder, all modes", "The tests have no panicking builders.",
  [SP, AP], [("guards are dropped by unwinding", SP+": read_or_init"), ("guards are dropped by unwinding", AP+": read_or_init")])
p("C23", "Every access to a lock-protected field eventually completes",
  "Provided that builders terminate and guards are dropped, every operation of every thread or task completes; no waiter starves.",
  ["schedules"], "every fair schedule", "A test run shows one schedule.",
  [SP, AP], [("lock fairness of the dependencies", SP), ("lock fairness of the dependencies", AP)])
p("C24", "A struct declared thread-safe can be sent and shared between threads",
  "A sync or async struct all fields of which are protected is sendable and shareable provided the values are, and unprotected non-thread-safe content makes it not so.",
  ["configurations", "programs"], "every field type and declaration", "A test can only use particular types.",
  [SP, AP, SL, AL], [("auto traits of containers", SP), ("auto traits of containers", AP)])
with open("/verif/properties.jsonl", "w") as f:
    for x in props:
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(props))
