#!/usr/bin/env python3
"""Makes kani/src/c18_gen.rs and kani/src/c20_gen.rs: declarations for whole matrices of struct- and field-level arguments,
and their contracts according to the documented rules of precedence and naming (`resolve` below is the oracle; it knows
nothing about the implementation).
"""
import re, sys

HELPERS = ["get", "get_mut", "set", "clearer", "predicate", "reader", "writer"]
PREFIX = {"get": "", "get_mut": "", "set": "set_", "clearer": "clear_", "predicate": "has_", "reader": "read_",
          "writer": "write_", "lazy": "build_", "builder": ""}
SUFFIX = {"get_mut": "_mut"}


def split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip()); cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Args(dict):
    """Arguments of an attribute: name -> list of sub-arguments"""
    def __init__(self, text):
        super().__init__()
        self.text = text
        for a in split(text):
            m = re.match(r"([\w#]+)(?:\((.*)\))?$", a, re.S)
            self[m[1]] = split(m[2]) if m[2] is not None else []

    def on(self, a):
        return None if a not in self else "off" not in self[a]

    def name(self, a):
        for x in self.get(a, []):
            if x.startswith('"') and len(x) > 2:
                return x[1:-1]

    def form(self, a):
        for x in self.get(a, []):
            if x in ("copy", "clone", "as_ref"):
                return x


def first(*v):
    for x in v:
        if x is not None:
            return x


class Field:
    def __init__(self, mode, S, ident, ftext, num):
        self.ident, self.num, self.text = ident, num, ftext
        F = Args(ftext or "")
        on = lambda a, d=False: first(F.on(a), S.on(a), d)
        fmode = None
        if F.on("sync"): fmode = "sync"
        if F.on("r#async"): fmode = "async"
        if "mode" in F: fmode = F["mode"][0]
        mode = self.mode = fmode or mode
        self.lazy = on("lazy")
        self.inner_mut = on("inner_mut")
        helpers = {h: on(h) for h in HELPERS if h != "get"}
        self.optional = first(F.on("optional"), S.on("optional"), not self.lazy and (helpers["clearer"] or helpers["predicate"]))
        helpers["get"] = on("get", helpers["clearer"] or helpers["predicate"] or self.lazy or self.inner_mut)
        locked = on("lock", helpers["reader"] or helpers["writer"] or self.optional) and not self.lazy
        self.fallible = self.lazy and on("fallible")
        if self.inner_mut: self.cls = "im"
        elif mode == "plain": self.cls = "cell" if self.lazy else "bare"
        elif self.lazy: self.cls = {"sync": "pl", "async": "apl"}[mode]
        elif locked: self.cls = {"sync": "lk", "async": "alk"}[mode]
        else: self.cls = "bare"
        # Accessor's form: the helper, the field, the struct's helper, the struct
        def flag(A):
            for x in ("copy", "clone"):
                if A.on(x): return x
        def veto(A):
            # copy(off) is against what is above
            return {x for x in ("copy", "clone") if A.on(x) is False}
        form, vetoed = None, set()
        for cand, v in ((F.form("get"), set()), (flag(F), veto(F)), (S.form("get"), set()), (flag(S), veto(S))):
            if cand and cand not in vetoed:
                form = cand
                break
            if cand and cand in vetoed:
                form = None
                break
            vetoed |= v
        self.form = form or "ref"
        if self.form == "as_ref" and not (self.optional and self.cls == "bare"): self.form = "ref"
        self.set_into = bool(first(True if "into" in F.get("set", []) else None, F.on("into"),
                                   True if "into" in S.get("set", []) else None, S.on("into"), False))
        self.bld_into = bool(first(True if "into" in F.get("builder", []) else None, F.on("into"),
                                   True if "into" in S.get("builder", []) else None, S.on("into"), False))
        # Names
        base = ident
        if "rename" in F: base = F["rename"][0].strip('"')
        def name(h):
            e = F.name(h)
            if e: return e
            return (S.name(h) or PREFIX[h]) + base + SUFFIX.get(h, "")
        def attrs(A, h):
            for x in (A.get(h, []) if h else [k + "(" + ", ".join(v) + ")" for k, v in A.items()]):
                if x.startswith("attributes_fn"): return x
        def compiled(h):
            a = first(attrs(F, h), attrs(F, None), attrs(S, h))
            return not (a and "cfg(any())" in a)
        self.names = {h: name(h) for h in helpers if helpers[h] and compiled(h)}
        self.lazy_name = name("lazy") if self.lazy else None
        self.builder_name = None
        opt_in = "opt_in" in S.get("builder", [])
        if first(F.on("builder"), S.on("builder") and not opt_in, False):
            self.builder_name = name("builder") if compiled("builder") else None
        # Those which could be there
        self.could = set()
        for h in HELPERS:
            for p in {PREFIX[h], S.name(h) or PREFIX[h]}:
                for b in {ident, base}:
                    self.could.add(p + b + SUFFIX.get(h, ""))
            if F.name(h): self.could.add(F.name(h))
        self.F = F
        d = F.get("default")
        self.init = None
        if self.optional or self.lazy:
            self.init = "None"
        else:
            self.init = "Some(0)"
        if d is not None:
            self.init = "Some(init(%d))" % num

    def decl(self, ty):
        a = "" if self.text is None else "    #[fieldx(%s)]\n" % (self.text.replace("(init(", "(vinit(") if ty == "Val" else self.text)
        return a + "    %s: %s,\n" % (self.ident, ty)

    def build_fn(self, ty):
        body = "made(%d)" % self.num
        ret = ty
        body = "%s::of(%s)" % (ty, body)
        if self.fallible: ret, body = "Result<%s, MyErr>" % ty, "Ok(%s)" % body
        asy = "async " if self.cls == "apl" else ""
        return "    %sfn %s(&self) -> %s {\n        %s\n    }\n" % (asy, self.lazy_name, ret, body)

    # ---- Calls. Each is a block with the value of Option<i32>

    def aw(self, call):
        return "run_now(%s)" % call if self.cls in ("alk", "apl") else call

    def fl(self, call):
        return call + ".ok().unwrap()" if self.fallible else call

    def guard(self, kind, ty):
        """kind: r or w"""
        inner = "Option<%s>" % ty if self.optional else ty
        if self.cls in ("bare", "cell"): return ("&%s" if kind == "r" else "&mut %s") % inner
        names = {"im": ("Ref", "RefMut"), "lk": ("Rd", "Wr"), "pl": ("MRd", "MWr"), "alk": ("ARd", "AWr"), "apl": ("ARd", "AMWr")}
        return "%s<%s>" % (names[self.cls][kind == "w"], inner)

    def read(self, h, s, ty):
        call = self.fl(self.aw("%s.%s()" % (s, self.names[h])))
        val = "{ let o: &Option<%s> = &r; o.as_ref().map(num) }" % ty if self.optional else "{ let o: &%s = &r; Some(num(o)) }" % ty
        if h == "get":
            if self.form in ("copy", "clone"):
                t = "Option<%s>" % ty if self.optional else ty
                return "{ let r: %s = %s; %s }" % (t, call, val)
            if self.form == "as_ref":
                return "{ let r: Option<&%s> = %s; r.map(num) }" % (ty, call)
        return "{ let r: %s = %s; %s }" % (self.guard("r", ty), call, val)

    def write(self, h, s, ty, x):
        call = self.fl(self.aw("%s.%s()" % (s, self.names[h])))
        if self.optional:
            return "{ let mut r: %s = %s; r.replace(%s::of(%s)).as_ref().map(num) }" % (self.guard("w", ty), call, ty, x)
        return "{ let mut r: %s = %s; let r: &mut %s = &mut r; Some(num(&std::mem::replace(r, %s::of(%s)))) }" % (self.guard("w", ty), call, ty, ty, x)

    def set(self, s, ty, x):
        arg = "Conv(%s)" % x if self.set_into else "exactly::<_>(%s)" % x
        call = self.aw("%s.%s(%s)" % (s, self.names["set"], arg))
        if self.optional or self.lazy: return "{ let r: Option<%s> = %s; r.as_ref().map(num) }" % (ty, call)
        return "{ let r: %s = %s; Some(num(&r)) }" % (ty, call)

    def clear(self, s, ty):
        return "{ let r: Option<%s> = %s; r.as_ref().map(num) }" % (ty, self.aw("%s.%s()" % (s, self.names["clearer"])))

    def has(self, s):
        c = "%s.%s()" % (s, self.names["predicate"])
        if self.cls == "alk": c = "run_now(%s)" % c
        return c

    def shared(self):
        return self.cls in ("im", "lk", "alk", "pl", "apl")


class Struct:
    def __init__(self, name, mode, stext, fields, ty="i32", lines=None):
        self.name, self.ty = name, ty
        S = Args(stext)
        self.stext = stext
        modearg = {"plain": "mode(plain)", "sync": "sync", "async": "r#async"}.get(mode)
        if mode == "implicit": modearg, mode = None, "plain"
        self.S = S
        self.attr = ", ".join(x for x in (modearg, stext) if x)
        self.fields = [Field(mode, S, n, t, i) for i, (n, t) in enumerate(fields)]
        self.builder = bool(S.on("builder")) or any(f.builder_name for f in self.fields)

    def decl(self):
        o = "#[fxstruct(%s)]\n" % self.attr if self.attr else "#[fxstruct]\n"
        o += "pub struct %s {\n" % self.name + "".join(f.decl(self.ty) for f in self.fields) + "}\n"
        lz = [f for f in self.fields if f.lazy]
        if lz:
            o += "impl %s {\n" % self.name + "".join(f.build_fn(self.ty) for f in lz) + "}\n"
        have = {n for f in self.fields for n in f.names.values()} | {f.lazy_name for f in lz} | {f.ident for f in []}
        lack = sorted({c for f in self.fields for c in f.could} - have - {"new", "builder"})
        if lack:
            o += "lacks! { %s: %s }\n" % (self.name, " ".join(lack))
        if self.builder:
            bn = {f.builder_name for f in self.fields if f.builder_name}
            lack = sorted({f.ident for f in self.fields} - bn)
            if lack:
                o += "lacks! { %sBuilder: %s }\n" % (self.name, " ".join(lack))
        return o

    def see(self):
        if self.light:
            return "".join(self.see1("see%d" % i, [(i, f)]) for i, f in enumerate(self.fields))
        return self.see1("see", list(enumerate(self.fields)))

    def see1(self, name, fields):
        o = "    fn %s(s: &mut %s, v: &mut [Option<i32>; %d]) {\n" % (name, self.name, len(self.fields))
        for i, f in fields:
            if "predicate" in f.names:
                o += "        assert!(%s == v[%d].is_some(), \"wrong predicate\");\n" % (f.has("s"), i)
            rd = [h for h in ("get", "reader") if h in f.names]
            for h in rd:
                if f.lazy:
                    o += "        v[%d] = Some(v[%d].unwrap_or(made(%d)));\n" % (i, i, f.num)
                if h == "get" and f.form == "clone" and self.ty == "Val":
                    o += "        let c = val_clones();\n"
                o += "        assert!(%s == v[%d], \"a wrong value is read\");\n" % (f.read(h, "s", self.ty), i)
                if h == "get" and self.ty == "Val" and f.form == "copy":
                    pass
                if h == "get" and f.form == "clone" and self.ty == "Val":
                    o += "        assert!(val_clones() != c || v[%d].is_none(), \"the value isn't cloned\");\n" % i
        o += "    }\n"
        return o

    def body(self, start):
        self.light = light = any(f.cls in ("apl", "alk", "pl") for f in self.fields)
        o = "{\n" + self.see()
        o += start
        if not light:
            o += "    see(s, v);\n"
        for i, f in enumerate(self.fields):
            ss = "{ let s = &*s; %s }" if f.shared() else "%s"
            lazyinit = "    v[%d] = Some(v[%d].unwrap_or(made(%d)));\n" % (i, i, f.num) if f.lazy else ""
            see = "see%d" % i if light else "see"
            if light: o += "    %s(s, v);\n" % see
            def step(call, newval, init=""):
                return init + "    let x: i32 = any();\n    assert!(%s == v[%d], \"a wrong previous value\");\n    v[%d] = %s;\n    %s(s, v);\n" % (ss % call, i, i, newval, see)
            if "set" in f.names: o += step(f.set("s", self.ty, "x"), "Some(x)")
            if "get_mut" in f.names: o += step(f.write("get_mut", "s", self.ty, "x"), "Some(x)", lazyinit)
            if "writer" in f.names and not f.lazy: o += step(f.write("writer", "s", self.ty, "x"), "Some(x)")
            if "writer" in f.names and f.lazy:
                st = "s.%s().store(%s::of(x))" if f.cls == "pl" else "run_now(s.%s()).store(%s::of(x))"
                o += step("{ let r: Option<%s> = %s; r.as_ref().map(num) }" % (self.ty, st % (f.names["writer"], self.ty)), "Some(x)")
            if "clearer" in f.names:
                o += "    assert!(%s == v[%d], \"a wrong value is cleared\");\n    v[%d] = None;\n    %s(s, v);\n" % (ss % f.clear("s", self.ty), i, i, see)
        o += "}\n"
        return o

    def start_new(self):
        return ("    let mut s = ManuallyDrop::new(%s::new());\n    let s = &mut *s;\n    let v = &mut [%s];\n"
                % (self.name, ", ".join(f.init for f in self.fields)))

    def start_builder(self):
        o = "    let b = %s::builder();\n" % self.name
        init = []
        for i, f in enumerate(self.fields):
            if f.builder_name:
                arg = "Conv(init(%d))" % i if f.bld_into else "exactly::<_>(init(%d))" % i
                o += "    let b = b.%s(%s);\n" % (f.builder_name, arg)
                init.append("Some(init(%d))" % i)
            else:
                init.append(f.init)
        o += "    let mut s = ManuallyDrop::new({ let mut b = b; b.build().ok().unwrap() });\n    let s = &mut *s;\n    let v = &mut [%s];\n" % ", ".join(init)
        return o

    def check(self):
        return self.body(self.start_builder() if self.builder else self.start_new())


HEAD = """// Made by tools/gen_matrix.py
use crate::{common::*, lacks, matrix::*};
use fieldx::{fxstruct, Ref, RefMut};

"""


def emit(path, groups):
    decls, proofs = "", ""
    n = 0
    compiled = "/// What is too much for the solver: the names and the types only, the behaviour is up to other properties\n#[cfg(kani)]\nmod compiled {\n    use super::*;\n    use std::mem::ManuallyDrop;\n\n"
    for g, structs in groups:
        if any(f.cls == "apl" for st in structs for f in st.fields) and sum(len(st.fields) for st in structs) > 2:
            decls += "// ---- %s\n\n" % g
            compiled += "    fn %s() {\n" % g
            for st in structs:
                n += 1
                decls += st.decl() + "\n"
                compiled += "        %s" % st.check().replace("\n", "\n        ").rstrip() + "\n"
            compiled += "    }\n"
            continue
        proofs += "    #[kani::proof]\n    #[kani::unwind(3)]\n    pub fn %s() {\n        start();\n" % g
        decls += "// ---- %s\n\n" % g
        for st in structs:
            n += 1
            decls += st.decl() + "\n"
            proofs += "        %s" % st.check().replace("\n", "\n        ").rstrip() + "\n"
        proofs += "        cover!(true, \"reachable\");\n    }\n\n"
    open(path, "w").write(HEAD + decls + compiled + "}\n\n#[cfg(kani)]\npub mod proofs {\n    use super::*;\n    use std::mem::ManuallyDrop;\n\n" + proofs + "}\n")
    print(path, proofs.count("kani::proof"), "harnesses", n, "structs")


def cat(*a):
    return ", ".join(x for x in a if x)


MODES = ["plain", "sync", "async"]
D = "default(init(%d))"


def matrix18():
    groups = []
    # Each helper: absent, on, off on both levels; for each kind of fields
    for mode in MODES:
        for kind in ["", "optional", "lazy", "lock", "inner_mut"]:
            if kind == "lock" and mode == "plain" or kind == "inner_mut" and mode != "plain": continue
            for h in HELPERS:
                if h in ("reader", "writer") and mode == "plain": continue
                if kind == "inner_mut" and h in ("reader", "writer"): continue
                structs = []
                for sl, stxt in enumerate(["", h, h + "(off)"]):
                    base = kind
                    if h != "get": base = cat(base, "get")
                    dflt = "" if kind in ("lazy",) else D
                    fs = []
                    for k, ft in enumerate([None, "", h, h + "(off)"]):
                        if ft is None: fs.append(("a", None)); continue
                        d = dflt % k if dflt else ""
                        t = cat(ft, d)
                        if not t: continue
                        fs.append(("abcde"[k], t))
                    structs.append(Struct("H%s%s%s%d" % (mode.title(), kind.title().replace("_", ""), h.title().replace("_", ""), sl), "implicit" if kind == "inner_mut" else mode, cat(base, stxt), fs))
                groups.append(("helper_%s_%s_%s" % (mode, kind or "ordinary", h), structs))
    return groups



def fields(*texts, default=True):
    """Fields a, b, c... with these arguments. None is for no attribute at all"""
    out = []
    for k, t in enumerate(texts):
        if t is None:
            out.append(("abcdefghijklmnop"[k], None))
            continue
        d = D % (k % 8) if default and "lazy" not in t else ""
        t = cat(t, d)
        out.append(("abcdefghijklmnop"[k], t or "get"))
    return out


def per_struct(groups, prefix, name, mode, slist, ftexts, ty="i32", default=True, chunk=8):
    """A harness with a struct for each of struct-level arguments"""
    structs = []
    for i, st in enumerate(slist):
        for c in range(0, len(ftexts), chunk):
            structs.append(Struct("%s%s%d%s" % (prefix, "".join(x.title() for x in name.split("_")), i, "abc"[c // chunk]), mode, st,
                                  fields(*ftexts[c:c + chunk], default=default), ty))
    groups.append((name, structs))


def matrix18b():
    groups = []
    # Accessor's form
    for mode in ("plain", "sync"):
        for kind in ("", "optional", "lazy", "lock"):
            if kind == "lock" and mode == "plain": continue
            sl = ["get", "get(copy)", "get(clone)", "get, copy", "get, clone", "get(copy), clone", "get(clone), copy"]
            fl = [None, "get", "get(copy)", "get(clone)", "copy", "clone", "copy(off)", "clone(off)", "get(copy), clone", "get(clone), copy"]
            if kind == "lazy": fl = [f or "get" for f in fl]
            if kind == "optional": sl.append("get(as_ref)"); fl.append("get(as_ref)")
            if mode == "sync" and kind == "optional": sl.pop(); fl.pop()
            if mode == "plain" and kind == "optional":
                # as_ref is for what isn't copied or cloned
                pass
            per_struct(groups, "F", "form_%s_%s" % (mode, kind or "ordinary"), mode, [cat(kind, x) for x in sl], fl, "Val",
                       default=kind != "lazy", chunk=6)
    # Conversion of arguments
    for mode, kind in (("plain", ""), ("plain", "optional"), ("sync", ""), ("sync", "lock"), ("sync", "lazy"), ("async", "")):
        sl = ["set", "set(into)", "set, into", "set(into), into", "set, into(off)"]
        fl = [None, "set", "set(into)", "into", "into(off)", "set(into), into(off)", "set, into"]
        if kind == "lazy": fl = [f or "get" for f in fl]
        per_struct(groups, "I", "into_%s_%s" % (mode, kind or "ordinary"), mode, [cat(kind, "get", x) for x in sl], fl)
        sl = ["builder", "builder(into)", "builder, into", "builder(into), set", "builder, set(into)", "builder, into(off)"]
        fl = [None, "builder", "builder(into)", "into", "into(off)", "builder(into), into(off)", "builder, into"]
        if kind == "lazy": continue
        if mode != "plain": sl = sl[1:5:2] + sl[-1:]
        per_struct(groups, "B", "builder_into_%s_%s" % (mode, kind or "ordinary"), mode, [cat(kind, "get", x) for x in sl], fl)
    # Kinds of fields
    for mode in ("plain", "sync", "async"):
        fl = [None, "", "optional", "optional(off)"]
        if mode != "plain": fl += ["lock", "lock(off)", "optional, lock(off)", "optional(off), lock"]
        sl = ["", "optional", "optional(off)"]
        if mode != "plain": sl += ["lock", "lock(off)", "lock, optional"]
        for i, x in enumerate(sl):
            per_struct(groups, "K", "optional_%s_%d" % (mode, i), mode, [cat(x, "get, set")], fl)
    fl = [None, "", "inner_mut", "inner_mut(off)", "inner_mut, optional", "inner_mut(off), optional", "inner_mut(off), clearer"]
    per_struct(groups, "K", "inner_mut", "implicit", [cat(x, "get, set, get_mut") for x in ("", "inner_mut", "inner_mut(off)")], fl)
    per_struct(groups, "K", "inner_mut_sync", "sync", ["get, set, get_mut"], [f for f in fl])
    per_struct(groups, "K", "inner_mut_async", "async", ["get, set, get_mut"], [f for f in fl[:5]])
    for mode in ("plain", "sync", "async"):
        fl = ["get", "lazy", "lazy(off)", "clearer, predicate", "lazy, clearer, predicate", "lazy(off), clearer, predicate"]
        for i, x in enumerate(("", "lazy", "lazy(off)")):
            per_struct(groups, "L", "lazy_%s_%d" % (mode, i), mode, [cat(x, "get, set")], fl, default=False)
    fl = ["lazy", "lazy, fallible", "lazy, fallible(off)", "lazy, fallible(error(MyErr))", "get"]
    for mode in ("plain", "sync"):
        per_struct(groups, "E", "fallible_%s" % mode, mode, ["get, set, " + x for x in ("fallible(error(MyErr))", "fallible(off, error(MyErr))")], fl, default=False)
        per_struct(groups, "E", "fallible_lazy_%s" % mode, mode, ["lazy, get, set, fallible(error(MyErr))"],
                   ["get", "fallible", "fallible(off)", "lazy(off)", "fallible(error(MyErr))"], default=False)
    # Modes
    for i, mode in enumerate(MODES):
        fl = [None, "lock(off)", "mode(plain)", "mode(plain), optional", "sync, lock", "mode(sync), lock", "mode(sync), optional", "mode(async), lock"]
        if mode == "plain": fl = [f for f in fl if f != "lock(off)"]
        per_struct(groups, "M", "mode_" + mode, mode, ["get, set"], fl)
    fl = ["mode(plain), lazy", "sync, lazy", "mode(sync), lazy, clearer"]
    per_struct(groups, "M", "mode_lazy", "plain", ["get, set"], fl, default=False)
    per_struct(groups, "M", "mode_lazy_in_sync", "sync", ["get, set"], fl, default=False)
    per_struct(groups, "M", "mode_lazy_in_async", "async", ["get, set"], fl, default=False)
    # Builder
    for mode in MODES:
        sl = ["builder", "builder(opt_in)", 'builder("with_")', 'builder("with_", opt_in)']
        fl = [None, "", "builder", "builder(off)", 'builder("give")', "builder(into)"]
        per_struct(groups, "B", "builder_" + mode, mode, [cat("get", x) for x in sl], fl)
    per_struct(groups, "B", "builder_of_field", "plain", ["get"], [None, 'builder("give")', "", "builder(off)"])
    # Attributes of methods
    no, yes = "attributes_fn(cfg(any()))", "attributes_fn(cfg(all()))"
    for mode, kind in (("plain", ""), ("plain", "optional"), ("sync", "lock"), ("sync", "optional"), ("async", "lock")):
        for h in HELPERS:
            if h in ("reader", "writer") and kind != "lock": continue
            if h in ("clearer", "predicate") and kind != "optional": continue
            base = cat(kind, "get" if h != "get" else "", "set" if h != "set" else "")
            sl = [cat(base, h + "(%s)" % no), cat(base, h + "(%s)" % yes), cat(base, h)]
            fl = [None, h, no, yes, h + "(%s)" % no, h + "(%s)" % yes, cat(h + "(%s)" % yes, no), cat(h + "(%s)" % no, yes)]
            if mode != "plain": fl = [f for i, f in enumerate(fl) if i in (0, 3, 5, 7)]
            per_struct(groups, "A", "attributes_%s_%s_%s" % (mode, kind or "ordinary", h), mode, sl, fl)
    per_struct(groups, "A", "attributes_builder", "plain", ["get, builder(%s)" % no, "get, builder"],
               ["", "builder", no, yes, "builder(%s)" % no, "builder(%s)" % yes, cat("builder(%s)" % yes, no)])
    return groups


def matrix20():
    groups = []
    P = {"get": "the_", "get_mut": "ref_", "set": "put_", "clearer": "drop_", "predicate": "knows_", "reader": "look_", "writer": "change_"}
    for mode in MODES:
        for kind in ("", "optional", "lazy", "lock", "inner_mut"):
            if kind == "lock" and mode == "plain" or kind == "inner_mut" and mode != "plain": continue
            hs = [h for h in HELPERS if not (h in ("clearer", "predicate") and kind not in ("optional", "lazy", "inner_mut"))
                  and not (h in ("reader", "writer") and (mode == "plain" or kind == ""))]
            if kind == "inner_mut": hs = [h for h in hs]
            plain = ", ".join(hs)
            prefixed = ", ".join('%s("%s")' % (h, P[h]) for h in hs)
            # All the fields have explicit names of all the helpers, or of some
            def explicit(k, sub):
                return ", ".join('%s("%s_%s")' % (h, "xyzw"[k], h) for h in sub)
            fl = [None, 'rename("other")', explicit(2, hs), cat('rename("renamed")', explicit(3, hs[::2]))]
            if kind == "lazy":
                fl = ['lazy("make_a")', 'rename("other")', cat('rename("third"), lazy("third_one")', explicit(2, hs[1::2])), explicit(3, hs[:3])]
            structs = []
            for i, st in enumerate((plain, prefixed)):
                structs.append(("N%s%s%d" % (mode.title(), kind.title().replace("_", "") or "Ordinary", i), "implicit" if kind == "inner_mut" else mode, cat(kind, st)))
            if kind == "lazy":
                structs.append(("N%sLazyPrefix" % mode.title(), mode, 'lazy("make_"), ' + plain))
            for i, (n, m, st) in enumerate(structs):
                fs = fields(*fl, default=kind != "lazy")
                groups.append(("names_%s_%s_%d" % (mode, kind or "ordinary", i), [Struct(n, m, st, fs)]))
        # Builders
        sl = ["builder", 'builder("with_")', 'builder("with_", into)']
        fl = [None, 'rename("other")', 'builder("third")', 'rename("fourth"), builder("give_it")', 'builder(into), get("fifth")', 'set("six")']
        structs = []
        for i, st in enumerate(sl):
            structs.append(Struct("N%sBuilder%d" % (mode.title(), i), mode, "get, set, " + st, fields(*fl)))
        groups.append(("names_%s_builder" % mode, structs))
    # A name of one field's method in another one's
    groups.append(("names_swapped", [Struct("NSwapped", "plain", "", [("a", 'get("b"), set("set_b")'), ("b", 'get("a"), set("set_a")'), ("c", 'rename("d"), get, set'), ("d", 'rename("c"), get, set')]),
                                     Struct("NSwappedSync", "sync", "lock, clearer", [("a", 'get("b"), set("set_b"), clearer("clear_b")'), ("b", 'get("a"), set("set_a"), clearer("clear_a")'), ("c", 'rename("d"), get, set'), ("d", 'rename("c"), get, set')]),
                                     Struct("NSwappedLazy", "plain", "get, set", [("a", 'lazy("build_b")'), ("b", 'lazy("build_a")')]),
                                     Struct("NSwappedBuilder", "plain", "get, builder", [("a", 'builder("b")'), ("b", 'builder("a")')])]))
    return groups


VIS = {"private": 0, "public(super)": 1, 'public(in_mod = "crate::c18::vis::outer")': 1, "public(crate)": 2, "public": 2, "pub": 2, "pub(super)": 1}


def visibility(path):
    """Who can use what"""
    inner, outer, root, checks = "", "", "", ""
    H = ["get", "set", "get_mut", "clearer", "predicate", "builder"]
    V = ["private", "public(super)", 'public(in_mod = "crate::c18::vis::outer")', "public(crate)", "public"]
    def of(A, h=None):
        for a, subs in (A.items() if h is None else [(x, []) for x in A.get(h, [])]):
            t = a + ("(%s)" % ", ".join(subs) if subs else "")
            if t in VIS: return t
    def on(v): return ", ".join(H) if v is None else ", ".join("%s(%s)" % (h, v) for h in H)
    structs = []
    for st in ["", "public", "private", "public(super)"]:
        for hv in [None, "private", "public"]:
            structs.append(cat(st, on(hv)))
    structs.append("get(private), set(public), get_mut(public(super)), clearer(private), predicate(public(crate)), builder(private), public(super)")
    ftexts = [None, "", "private", "public", "public(super)", "get(private), set(public)", "private, get(public), clearer(public(super)), builder(public(crate))",
              "public, get_mut(private), predicate(private), builder(private)", 'get(public(in_mod = "crate::c18::vis::outer")), set(public(super)), private']
    n = 0
    for vis in ("pub", "pub(super)"):
        for st in structs if vis == "pub" else structs[:2]:
            name = "V%d" % n
            n += 1
            S = Args(st)
            bvis = VIS[first(of(S, "builder"), of(S), vis)]
            inner += "        #[fxstruct(%s)]\n        %s struct %s {\n" % (st, vis, name)
            own, sup, all_ = [], [], []
            lack_sup, lack_all = {0: [], 1: []}, {0: [], 1: []}
            for k, ft in enumerate(ftexts):
                f = "abcdefghijk"[k]
                if ft is not None: inner += "            #[fieldx(%s)]\n" % cat(ft, "get" if not ft else "") if False else "            #[fieldx(%s)]\n" % cat(ft, "default(init(%d))" % (k % 8))
                inner += "            %s: i32,\n" % f
                F = Args(ft or "")
                for h in H:
                    v = VIS[first(of(F, h), of(F), of(S, h), of(S), vis)]
                    m = PREFIX[h] + f + SUFFIX.get(h, "")
                    if h == "builder":
                        use = ["let _ = %sBuilder::%s;" % (name, m)]
                    else:
                        use = ["let _ = %s::%s;" % (name, m)]
                    own += use
                    b = h == "builder"
                    if b and bvis < 1: pass
                    elif v >= 1: sup += use
                    elif not b: lack_sup[b].append(m)  # builder setters are public
                    if b and bvis < 2: pass
                    elif v >= 2: all_ += use
                    elif not b: lack_all[b].append(m)
            own += ["let _ = %s::builder;" % name]
            if bvis >= 1: sup += ["let _ = %s::builder;" % name]
            if bvis >= 2: all_ += ["let _ = %s::builder;" % name]
            inner += "        }\n        fn own%s() {\n            %s\n        }\n" % (name, " ".join(own))
            outer += "    fn sup%s() {\n        use inner::*;\n        %s\n    }\n" % (name, " ".join(sup))
            for b, l in lack_sup.items():
                if l: outer += "    lacks! { inner::%s%s: %s }\n" % (name, "Builder" if b else "", " ".join(l))
            if vis == "pub":
                root += "fn all%s() {\n    use outer::inner::*;\n    %s\n}\n" % (name, " ".join(all_))
                for b, l in lack_all.items():
                    if l: root += "lacks! { outer::inner::%s%s: %s }\n" % (name, "Builder" if b else "", " ".join(l))
    open(path, "w").write(HEAD + "pub mod outer {\n    use super::*;\n    pub mod inner {\n        use super::*;\n" + inner + "    }\n" + outer + "}\n" + root)
    print(path, n, "structs")


if __name__ == "__main__":
    out = sys.argv[1]
    emit(out + "/c18_gen.rs", matrix18())
    emit(out + "/c18_more.rs", matrix18b())
    emit(out + "/c20_gen.rs", matrix20())
    visibility(out + "/c18_vis.rs")
