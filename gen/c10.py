"""C10: the attributes in scopes that define whatever names the expansion might refer to."""
import re, shutil
from vk import build, rust, report, choice
from vk.rust import Case
from . import enums, dprops, dprops2, dprops3, d12

TRAITS = ["ToString", "ToOwned", "Clone", "Copy", "Send", "Sync", "Sized", "Drop", "Fn", "FnMut", "FnOnce", "AsRef", "AsMut", "Into", "From", "TryFrom", "TryInto", "Default", "Iterator", "Extend", "IntoIterator", "DoubleEndedIterator",
          "ExactSizeIterator", "FusedIterator", "TrustedLen", "FromIterator", "PartialEq", "Eq", "Ord", "PartialOrd", "Hash", "Future", "IntoFuture", "Unpin", "Debug", "Display", "LowerHex", "Pointer", "Write", "Read", "BufRead", "Seek", "Error", "Deref",
          "DerefMut", "Index", "IndexMut", "RangeBounds", "Coroutine", "Stream", "Sink", "AsyncRead", "AsyncWrite", "AsyncSeek", "AsyncBufRead", "Buf", "BufMut", "ParallelIterator", "IndexedParallelIterator", "ParallelExtend", "IntoParallelIterator",
          "UnindexedConsumer", "Consumer", "ProducerCallback", "Serialize", "Serializer", "Body", "MustNotImplDrop", "Any"]
TYPES = ["Option", "Result", "Box", "Vec", "String", "Pin", "Poll", "Context", "Formatter", "Arguments", "IoSlice", "IoSliceMut", "SeekFrom", "Bound", "CoroutineState", "ReadBuf", "Async", "AsyncSink", "StartSend", "Frame", "SizeHint", "PhantomData", "Item",
         "Output", "Target", "Yield", "Return", "Data", "SinkItem", "Idx", "T", "U", "A", "B", "E", "F", "R", "K", "Enum", "Variant0", "X", "This", "Args", "Initializer"]
VALUES = ["Some", "None", "Ok", "Err", "Left", "Right", "Ready", "Pending", "drop", "panic", "new", "map", "next", "poll", "mem", "arg", "args", "buf", "n", "f", "x", "cx", "val", "err", "item", "iter", "init", "y", "e", "v", "this", "marker", "index", "predicate", "new_unchecked"]
MODS = ["core", "std", "alloc", "option", "result", "iter", "pin", "ops", "fmt", "io", "marker", "future", "task", "error", "convert", "mem", "cmp", "futures", "tokio", "rayon", "serde", "http_body", "auto_enums", "boxed", "string", "vec", "prelude", "default", "sup"]
MACROS = ["panic", "unreachable", "todo", "unimplemented", "assert", "assert_eq", "debug_assert", "matches", "vec", "format", "format_args", "write", "compile_error", "stringify", "concat", "r#try", "include", "println", "dbg", "cfg", "env", "line"]
# those that stand for a constant cannot be the name of a variable (see DESIGN.md)
VARS = {"arg", "args", "buf", "n", "f", "x", "cx", "val", "err", "item", "iter", "init", "y", "e", "v", "this", "index", "predicate", "bufs", "amt", "pos", "byte", "s"}
METHODS = ["next", "size_hint", "count", "last", "nth", "collect", "fold", "map", "map_err", "poll", "poll_next", "resume", "get_unchecked_mut", "get_mut", "as_mut", "as_ref", "deref", "deref_mut", "index", "index_mut", "len", "read", "write", "flush", "seek",
           "consume", "fill_buf", "fmt", "write_str", "write_fmt", "source", "description", "extend", "start_send", "poll_ready", "poll_read", "poll_write", "call", "call_mut", "call_once", "transpose", "drive", "opt_len", "serialize", "into", "from", "clone", "eq",
           "new_unchecked", "get_ref", "unwrap", "next_back", "find", "any", "all", "start_bound", "contains", "poll_frame", "is_end_stream", "as_dyn_error", "cause", "ok", "err", "borrow", "by_ref", "as_deref", "as_pin_mut", "prepare_uninitialized_buffer", "read_buf"]
VN = ["Item", "Output", "Target", "Error", "Yield", "Return", "Data", "SinkItem", "SinkError", "Idx", "Iterator", "Future", "Pending", "Result", "Clone", "Drop", "T", "Enum", "transpose", "next", "Self_", "core", "std"]
TP = ["T", "U", "F", "E", "R", "C", "CB", "P0", "Idx", "Item", "Output", "Target", "Error", "Data", "Iterator", "Option", "Poll", "Fut", "G", "S", "B", "A", "I", "Box_", "Result", "Send", "Yield", "Fn", "core", "std", "futures"]
EN = ["Ee", "Ee", "Enum", "Option", "Result", "Iterator", "Poll", "Pin", "T", "Future", "Context", "Read", "Item", "Output", "Error", "Fn", "core", "Some"]


def items(s, taken, p):
    """Hostile items, none of them called like something in taken: (items, macros, how many)."""
    out, mac, used, vals = [], [], set(taken), set(taken)
    n = 0

    def methods():
        ms = METHODS if s.chance(1, 3) else s.subset(METHODS, 1, 3)
        return " ".join("fn %s(self) -> u8 where Self: ::core::marker::Sized { 0 }" % m for m in ms)
    for x in TRAITS + TYPES:
        if x in used or not s.chance(p, 8):
            continue
        used.add(x)
        n += 1
        k = s.weighted([(3, "trait"), (2, "struct"), (1, "type"), (1, "enum"), (1, "mod"), (1, "gen")]) if x in TRAITS else s.weighted([(3, "struct"), (1, "trait"), (1, "type"), (1, "enum"), (1, "mod"), (2, "gen")])
        if k == "trait":
            out.append("pub trait %s { %s } impl<Tt_: ?::core::marker::Sized> %s for Tt_ {}" % (x, methods(), x))
        elif k == "struct" and x not in vals:
            vals.add(x)
            out.append(s.pick(["pub struct %s;", "pub struct %s(u8);", "pub struct %s { a: u8 }"]) % x)
        elif k == "type":
            out.append("pub type %s = ();" % x)
        elif k == "gen":
            out.append("pub enum %s<Aa_, Bb_ = u8> { Some(Aa_), None(Bb_), Ok(u8), Err, Ready, Pending }" % x)
        elif k == "mod":
            out.append("pub mod %s { pub struct Option; pub fn new() {} }" % x)
        else:
            out.append("pub enum %s { }" % x)
    for x in MODS:
        if x not in used and s.chance(p, 8):
            used.add(x)
            n += 1
            out.append(s.pick(["pub mod %s { }", "pub mod %s { pub mod option { pub struct Option; } pub mod iter { pub trait Iterator {} } pub mod result { pub enum Result { Ok, Err } } pub mod pin { pub struct Pin; } pub mod io { pub trait Read {} } }", "pub trait %s { }", "pub struct %s { a: u8 }"]) % x)
    for x in VALUES:
        if x not in vals and s.chance(p, 8):
            vals.add(x)
            n += 1
            out.append(s.pick(["pub fn %s() { ::core::panic!() }", "pub fn %s<Aa_>(_: Aa_) -> u8 { 0 }"] + ([] if x in VARS else ["pub const %s: u8 = 1;", "pub static %s: u8 = 1;"])) % x)
    for x in MACROS:
        if x not in taken and s.chance(p, 8):
            n += 1
            mac.append("macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"a macro of the user\") } }" % x)
    return s.shuffle(out), mac, n


ABS = [(r"\bstd::(?!Ty\b)", "::std::"), (r"(?<![:\w])Box<", "::std::boxed::Box<"), (r"(?<![:\w])P<", "::sup::P<"), (r"(?<![:\w])Sized\b", "::core::marker::Sized"), (r"(?<![:\w])Has\b", "Has_"), (r"\bHold<", "Hold_<")]


def absolute(t):
    for a, b in ABS:
        t = re.sub(a, b, t)
    return t


def words(t):
    return set(re.findall(r"\w+", t))


def host(s, decl, inner="", derives=False):
    """A module that has decl and hostile names."""
    p = s.pick([1, 3, 5, 7])
    none = not derives and s.chance(1, 3)
    its, mac, n = items(s, words(re.sub(r"^\s*#\[::auto_enums.*$", "", decl, flags=re.M)) | {"Has_", "Hold_", "host", "e", "t", "run"} | ({"Clone", "derive"} if derives else set()), p)
    lab = {"names:%s" % (n // 40 * 40)} | ({"no_implicit_prelude"} if none else set())
    a, b = (its[:len(its) // 2], its[len(its) // 2:])
    return "pub mod host {\n%s%s\n%s\n%s\npub struct Hold_<T>(T);\npub trait Has_ { type Ty; }\nimpl<T> Has_ for Hold_<T> { type Ty = T; }\n%s\n%s\n}\n" % (
        "#![no_implicit_prelude]\n" if none else "", inner, "\n".join(a), "\n".join(mac), decl, "\n".join(b)), lab


class Names:
    """Lends its names to enums.shape."""
    def __init__(self, s):
        self.v = s.shuffle(VN)[:s.draw(8)] + s.shuffle(enums.VNAMES)
        self.t = s.shuffle(TP)[:s.draw(12)]
        self.t += [x for x in s.shuffle(enums.TPARAMS) if x not in self.t]
        self.e = s.pick([x for x in EN])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def make(g, rounds):
    pool = dprops.CORE + ["Error"] + d12.group_traits(g) * 2 if g == "g1" else d12.group_traits(g)

    def gen(s):
        n = s.weighted([(2, 1), (3, 2), (3, 3), (2, 6)])
        traits = enums.with_explicit(list(dict.fromkeys(s.shuffle(list(pool))[:n])))
        traits = [t for t in traits if t != "TrustedLen"] or ["Iterator"]
        lst = enums.trait_list(s, traits)
        cl = enums.closure(traits)
        N = Names(s)
        tp = [t for t in N.t if t != N.e]
        sh = enums.shape(s, traits, "#[::auto_enums::enum_derive(%s)]" % lst, name=N.e, vnames=N.v, tparams=tp, max_variants=6)
        decl = absolute(sh.decl).replace("pub(super) enum", "pub enum").replace("pub(crate) enum", "pub enum")
        h, lab = host(s, decl)
        body = dprops.emit(s, "C10", [t for t in traits if t != "Error"], sh)
        if "Error" in cl:
            for v, pre, expr, ty in sh.variants:
                if "'" not in ty:
                    body.append("    cx.same(\"error %s\", |d| { %s err_enum::<e::Tt, %s>(e::Tt::%s(%s), |e| match e { e::Tt::%s(x) => x, _ => unreachable!() }, d) }, |d| { %s err_bare::<%s>(%s, d) });" % (v, pre, ty, v, expr, v, pre, ty, expr))
        conc = re.sub(r"^%s\b" % re.escape(N.e), "super::host::" + N.e, sh.concrete)
        conc = re.sub(r"\bHold<", "super::host::Hold_<", conc)
        txt = "use sup::*;\nuse std::{fmt, io, ops::*, future::Future, io::{Read, Write}, collections::*};\n" + h
        txt += "pub mod e {\nuse sup::*;\nuse std::{fmt, io, ops::*, future::Future, collections::*};\npub type Tt%s = %s;\n}\n" % ("<'x>" if "'_" in conc else "", conc.replace("'_", "'x"))
        txt += "pub fn run(cx: &mut Cx) {\n    cx.seed = %d;\n    cx.rounds = %d;\n%s\n}\n" % (s.draw(1 << 20), rounds, "\n".join(body))
        # without the attribute it has to compile
        ref = re.sub(r"^\s*#\[::auto_enums.*$", "", txt[:txt.index("pub fn run(")], flags=re.M) + "pub fn run(cx: &mut Cx) {}\n"
        c = Case(txt, ref)
        c.labels = {"trait:" + t for t in cl} | lab | ({"variant called like an associated type"} if any(v in VN[:10] for v, _, _, _ in sh.variants) else set()) | ({"enum called like something"} if N.e != "Ee" else set())
        c.meta["show"] = h
        return c
    return gen


def transpose(rounds):
    inner = dprops2.gen_transpose(rounds)

    def gen(s):
        c = inner(s)
        m = re.search(r"#\[auto_enums::enum_derive.*\npub enum Ee.*\n", c.src)
        decl = m.group(0)
        rest = c.src.replace(decl, "use super::Ee;\n").replace("pub use e::run;\n", "")
        rest = rest.replace("use super::e;", "use super::e;\nuse std::prelude::v1::*;")
        h, lab = host(s, decl.replace("#[auto_enums", "#[::auto_enums"), inner=rest.replace("use sup::*;", "use ::sup::*; use ::std::prelude::v1::*; use ::std::{format, vec, panic, unreachable};", 1).replace("\nuse std::prelude::v1::*;", ""), derives="Clone" in decl)
        d = Case("pub use host::e::run;\n" + h, None)
        d.labels = c.labels | lab | {"trait:Transpose"}
        d.meta["show"] = decl
        return d
    return gen


# ---------------------------------------------------------------- auto_enum
LF = """pub mod lf {
    pub fn r(a: u32, b: u32) -> std::ops::Range<u32> { a..a + b }
    pub fn o(a: u32) -> std::iter::Once<u32> { std::iter::once(a) }
    pub fn k(a: u32, b: u32) -> std::iter::Take<std::iter::Repeat<u32>> { std::iter::repeat(a).take(b as usize) }
    pub fn t(a: u32, b: u32, c: u32) -> std::array::IntoIter<u32, 3> { [a, b, c].into_iter() }
    pub fn v(a: Vec<u32>) -> std::vec::IntoIter<u32> { a.into_iter() }
    pub fn sum(i: impl Iterator<Item = u32>) -> u32 { i.sum() }
    pub fn er<E>(e: E) -> Result<u32, E> { Err(e) }
    pub fn fine<E>(x: u32, _: E) -> Result<u32, E> { Ok(x) }
    pub fn disp(r: Result<u32, impl std::fmt::Display>) -> u32 { match r { Ok(x) => x, Err(e) => 1000 + e.to_string().parse::<u32>().unwrap() } }
}
"""
LOCALS = ["val", "err", "x", "e", "this", "enum_", "v0", "arg", "r#match", "Variant"]


class Body:
    def __init__(self, s):
        self.s, self.labels = s, set()
        self.var = s.pick(LOCALS)

    def leaf(self):
        s = self.s
        a, b = s.draw(50), s.draw(9)
        k = s.draw(4)
        v = self.var
        return [("crate::lf::r(%d, %s)" % (a, v), lambda n: sum(range(a, a + n))), ("crate::lf::o(%d + %s)" % (a, v), lambda n: a + n), ("crate::lf::k(%s, %d)" % (v, b), lambda n: n * b),
                ("crate::lf::t(%d, %s, %d)" % (a, v, b), lambda n: a + n + b)][k]

    def value(self, d):
        s = self.s
        k = s.weighted([(3, "match"), (3, "if"), (2, "loop"), (1, "block"), (1, "unsafe"), (1, "paren")])
        v = self.var
        self.labels.add("form: " + k)
        if k in ("block", "unsafe", "paren") and d > 0:
            t, f = self.value(d - 1)
            c = s.draw(5)
            return {"block": "{ let %s = %s + %d; %s }" % (v, v, c, t), "unsafe": "unsafe { let %s = %s + %d; %s }" % (v, v, c, t), "paren": "(%s)" % t}[k], (f if k == "paren" else lambda n: f(n + c))
        m = s.int(2, 4)
        bs = []
        for i in range(m):
            if d > 0 and s.chance(1, 4) and i and k != "loop":
                t, f = self.value(d - 1)
                bs.append((t, f, "nested"))
            elif k != "loop" and i and i < m - 1 and s.chance(1, 6) and sum(b[2] != "never" for b in bs) + m - i - 1 >= 2:
                bs.append((s.pick(["#[never] ::core::panic!()", "::core::unreachable!()", "::std::panic!(\"x\")", "#[never] loop { ::core::panic!() }"]), None, "never"))
            else:
                bs.append(self.leaf() + ("",))
        pick = lambda n: bs[min(n % 5, m - 1)][1](n) if bs[min(n % 5, m - 1)][1] else None

        def br(b):
            return "#[nested] { %s }" % b[0] if b[2] == "nested" else b[0]
        if k == "if":
            t = ""
            for i, b in enumerate(bs):
                x = "{ %s }" % br(b)
                t += ("if %s %% 5 == %d %s else " % (v, i, x)) if i < m - 1 else x
            return t, pick
        if k == "loop":
            l = s.pick(["", "'a: "])
            brk = "break" + (" 'a" if l else "")
            return "%sloop { %s }" % (l, " ".join(("if %s %% 5 == %d { %s %s; }" % (v, i, brk, b[0])) if i < m - 1 else "%s %s;" % (brk, b[0]) for i, b in enumerate(bs))), pick
        return "match %s %% 5 { %s }" % (v, " ".join("%s => %s," % (i if i < m - 1 else "_", br(b)) for i, b in enumerate(bs))), pick

    def fn(self):
        """(text of `pub fn f(n: u32) -> u32`, its meaning; None if it diverges)"""
        s, v = self.s, self.var
        k = s.weighted([(3, "fn"), (2, "let"), (1, "expr"), (4, "try"), (1, "closure"), (2, "marker"), (1, "return"), (1, "method"), (1, "tryclosure")])
        self.labels.add("as " + k)
        A = "#[::auto_enums::auto_enum(Iterator)]"
        RES = "::core::result::Result<u32, impl ::core::fmt::Display>"
        if k in ("try", "tryclosure"):
            es = [s.draw(200) for _ in range(3)]
            ts = s.shuffle(["u8", "u16", "u64", "i32", "i64"])
            q = ["crate::lf::er(%d%s)" % (es[i], ts[i]) for i in range(3)]
            w = s.pick(LOCALS)
            at = s.pick(["::auto_enums::auto_enum(Display)", "::auto_enums::auto_enum(fmt::Display)", "::auto_enums::auto_enum(Display, marker = mk)"])
            ok = s.pick(["::core::result::Result::Ok(%s + %d)", "::std::result::Result::Ok(%s + %d)"]) % (w, es[0])
            body = "if %s == 1 { %s?; } let %s = if %s == 2 { %s? } else { crate::lf::fine(%s, 0%s)? }; if %s == 3 { %s } %s" % (
                v, q[0], w, v, q[1], v, ts[1], w, s.pick(["return %s?;" % "::core::result::Result::Ok(%s)" % q[2], "%s?;" % q[2], "let _ = %s?;" % q[2], "crate::lf::fine(1, 0u8)?;" + q[2] + "?;"]).replace("return ::core::result::Result::Ok(%s)?;" % q[2], "%s?;" % q[2]), ok)
            f = lambda n: 1000 + es[0] if n == 1 else 1000 + es[1] if n == 2 else 1000 + es[2] if n == 3 else n + es[0]
            if k == "try":
                return "#[%s] fn fx(%s: u32) -> %s { %s }\npub fn f(n: u32) -> u32 { crate::lf::disp(fx(n)) }" % (at, v, RES, body), f
            return "pub fn f(n: u32) -> u32 { #[%s] let c = |%s: u32| { %s }; crate::lf::disp(c(n)) }" % (at, v, body), f
        if k == "marker":
            (x, f), (y, g) = self.leaf(), self.leaf()
            mk = s.pick(["marker", "Some", "Ok", "vec", "mk", "println"])
            at = A if mk == "marker" else "#[::auto_enums::auto_enum(Iterator, marker = %s)]" % mk
            self.labels.add("marker: " + mk)
            return "pub fn f(n: u32) -> u32 { %s { let c = |%s: u32, k: bool| if k { %s!(%s) } else { %s!(%s) }; crate::lf::sum(c(n, n > 2)) } }" % (at, v, mk, x, mk, y), lambda n: f(n) if n > 2 else g(n)
        t, f = self.value(2)
        IT = "impl ::core::iter::Iterator<Item = u32>"
        if k == "let":
            return "pub fn f(n: u32) -> u32 { let %s = n; %s let it = %s; crate::lf::sum(it) }" % (v, A, t), f
        if k == "expr":
            return "pub fn f(n: u32) -> u32 { let %s = n; crate::lf::sum(%s { let %s = n; %s }) }" % (v, A, v, t), f
        if k == "closure":
            return "pub fn f(n: u32) -> u32 { %s let c = |%s: u32| { if %s == 99 { return crate::lf::r(0, 0); } %s }; crate::lf::sum(c(n)) }" % (A, v, v, t), f
        if k == "return":
            x, g = self.leaf()
            return "%s fn fx(%s: u32) -> %s { if %s == 3 { return %s; } %s }\npub fn f(n: u32) -> u32 { crate::lf::sum(fx(n)) }" % (A, v, IT, v, x, t), lambda n: g(n) if n == 3 else f(n)
        if k == "method":
            return "pub struct Ss_(u32);\nimpl Ss_ { %s fn m(&self) -> %s { let %s = self.0; %s } }\npub fn f(n: u32) -> u32 { crate::lf::sum(Ss_::m(&Ss_(n))) }" % (A, IT, v, t), f
        return "%s fn fx(%s: u32) -> %s { %s }\npub fn f(n: u32) -> u32 { crate::lf::sum(fx(n)) }" % (A, v, IT, t), f


def auto(s):
    b = Body(s)
    t, f = b.fn()
    # a variable cannot be called like a constant, and user macros that are used keep their meaning
    taken = {b.var, "Ss_", "f", "fx", "c", "it", "n", "k", "crate", "lf", "m"} | {x for x in LOCALS if re.search(r"\b%s\b" % re.escape(x), t)}
    if "marker: " in " ".join(b.labels):
        taken |= set()
    p = s.pick([1, 3, 5, 7])
    its, mac, n = items(s, taken, p)
    none = s.chance(1, 3)
    lab = b.labels | {"names:%s" % (n // 40 * 40)} | ({"no_implicit_prelude"} if none else set())
    if s.chance(1, 3):
        # the names are those of a block
        lab.add("names of a block")
        t = "pub fn f(n: u32) -> u32 { %s\n%s\n%s\nf(n) }" % ("\n".join(its), "\n".join(mac), t)
        h = "pub mod host {\n%s%s\n}\n" % ("#![no_implicit_prelude]\n" if none else "", t)
    else:
        h = "pub mod host {\n%s%s\n%s\n%s\n}\n" % ("#![no_implicit_prelude]\n" if none else "", "\n".join(its), "\n".join(mac), t)
    body = []
    for n in range(8):
        want = f(n)
        if want is not None:
            body.append("    { let got = host::f(%d); cx.ensure(got == %d, || format!(\"f(%d) is {got} instead of %d\")); }" % (n, want & 0xffffffff, n, want & 0xffffffff))
        else:
            body.append("    cx.ensure(std::panic::catch_unwind(|| host::f(%d)).is_err(), || format!(\"f(%d) returns\"));" % (n, n))
    c = Case("use sup::*;\n%spub fn run(cx: &mut Cx) {\n%s\n}\n" % (h, "\n".join(body)), None)
    c.labels = lab
    c.meta["show"] = t
    return c


def check(rep):
    rep.rule.append("Generated enums (also with enum, variant and type parameter names taken from the prelude and the traits) inside modules that define any subset of ~250 hostile names - types, traits with competing methods for all types, modules, "
                    "functions, constants, macros, optionally without the implicit prelude - driven like D01-D12; generated auto_enum uses in the same kind of scope, with known results. Non-trivial: at least 40 hostile names in scope.")
    nt = lambda c, r: "names:0" not in c.labels
    gens = [(g, lambda g=g: make(g, 4)) for g in d12.GROUPS]
    for g in d12.GROUPS:
        names = {g} | ({"transpose", "auto"} if g == "g1" else set())
        if rep.replay and rep.replay.get("generator") not in names:
            continue
        ext = [dprops3.EXTERNS[fx][0] for fx in d12.GROUPS[g]]
        m, d, flags = dprops.setup(rep, fx=d12.GROUPS[g], ext=[k for _, k in ext], extern=ext)
        try:
            pre = dprops.PRELUDE.replace("feature(", "feature(proc_macro_hygiene, stmt_expr_attributes, custom_inner_attributes, ", 1) + LF
            batch = rust.Batch(d, flags, pre)
            N = {"g1": (300, 6000), "g2": (64, 1600), "g3": (64, 1600), "g4": (48, 800)}[g]
            if not rep.replay or rep.replay["generator"] == g:
                report.differential(rep, batch, make(g, 4), dprops.n_cases(rep, *N), rep.seed, gen_name=g, size=20, nontrivial=nt)
            if g == "g1":
                if not rep.replay or rep.replay["generator"] == "transpose":
                    report.differential(rep, batch, transpose(4), dprops.n_cases(rep, 45, 1000), rep.seed, gen_name="transpose", size=15, nontrivial=nt)
                if not rep.replay or rep.replay["generator"] == "auto":
                    report.differential(rep, batch, auto, dprops.n_cases(rep, 400, 8000), rep.seed, gen_name="auto", size=40, nontrivial=nt)
        finally:
            shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C10": check}
