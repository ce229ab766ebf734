"""D15: enum_derive leaves the enum as written, and its impls apply to exactly the instantiations whose fields implement the trait."""
import concurrent.futures as cf
import os, re, shutil
from vk import build, rust, report, choice
from vk.build import Infra
from vk.rust import Case
from . import enums, dprops, dprops3, d12, c09
from .syntax import Syn, ATTRS

# ---------------------------------------------------------------- the enum itself
VN = ["A", "B", "Left", "r#match", "r#type", "É", "lower", "X_1", "Some", "None", "Self_", "_U", "Iterator", "T", "Enum", "E0"]
FIELD_ATTRS = ["", "", "", "", "#[allow(unused)] ", "/** field */ ", "#[my::tool(x)] ", "#[cfg(all())] "]
VAR_ATTRS = ["", "", "", "", "/** doc of the variant */ ", "#[doc = \"d\"] ", "#[doc(hidden)] ", "#[allow(non_camel_case_types)] ", "#[serde(rename = \"x\")] ", "#[cfg_attr(all(), allow(unused))] ", "#[deprecated] "]
ABOVE = ["", "", "/** Documented. */", "#[doc = \"d\"]", "#[must_use]", "#[non_exhaustive]", "#[repr(u8)]", "#[allow(dead_code)]", "#[cfg_attr(all(), allow(unused))]", "#[deprecated = \"old\"]"]
OUTER = ABOVE + ["#[derive(Clone)]"]  # a derive expands in its turn: not between the two recordings
BELOW = ABOVE + ["#[my::tool(a = \"b\", { c })]", "#[my::serde(untagged)]", "#[repr(C)]"]
LISTED = ["Debug", "Display", "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "Extend", "Future", "io::Read", "Read", "BufRead", "Write", "Seek", "Error", "fmt::Write", "Clone", "Copy", "PartialEq, Eq", "a::b::Custom",
          "Hash", "Deref", "Fn", "IndexMut", "AsRef", "RangeBounds", "Coroutine", "fmt::Pointer", "serde::Serialize", "tokio1::AsyncRead", "rayon::ParallelIterator", "futures03::Stream", "http_body1::Body", "Transpose"]


def enum_case(s, i):
    y = Syn(s, fuel=40)
    L = set()
    gs = []
    for _ in range(s.weighted([(4, 0), (2, 1), (1, 2)])):
        gs.append(s.pick(["'a%d", "'a%d: 'static", "'a%d: 'b + 'c", "#[allow(unused)] 'a%d", "'_a%d"]) % len(gs))
    nt = s.weighted([(1, 0), (3, 1), (4, 2), (2, 4), (1, 9)])
    ts = []
    for k in range(nt):
        ts.append(s.pick(["T%d", "Item%d", "r#T%d", "_T%d", "t%d"]) % k)
        b = s.pick(["", "", ": %s" % y.bound(1), ": ?Sized + %s" % y.bound(1), ": 'a + %s" % y.bound(1), ": %s + %s," % (y.bound(1), y.bound(1)), ":", ": for<'z> Fn(&'z u8) -> &'z u8", ": (?Sized)", ": ~const Tr" if False else ": Tr<Out: Copy>"]).rstrip(",")
        gs.append("%s%s%s" % (s.pick(["", "", "", "#[allow(unused)] "]), ts[-1], b))
    d = s.draw(3) == 2
    if d and nt:
        gs[-1] += " = %s" % y.ty(1)
        L.add("default")
    for _ in range(s.weighted([(4, 0), (1, 1), (1, 2)])):
        gs.append("const N%d: %s%s" % (len(gs), s.pick(["usize", "bool", "char"]), s.pick(["", " = 3", " = { 1 + 2 }", " = -1", " = 'c'"]) if d or not nt else ""))
        L.add("const parameter")
    wh = []
    for _ in range(s.weighted([(3, 0), (2, 1), (1, 3)])):
        wh.append(s.pick(["%s: %s" % (y.ty(1), y.bound(1)), "for<'z> &'z %s: %s" % ("T0", y.bound(1)), "'a: 'b", "[u8; 3]: Sized", "<T0 as Tr>::Out: %s" % y.bound(1), "(%s,):" % y.ty(1), "T0: ?Sized", "for<> T0: Copy + 'a + Send"]))
    if wh:
        L.add("where clause")
    vs = []
    n = s.weighted([(2, 1), (4, 2), (3, 3), (2, 5), (1, 12), (1, 40)])
    names = s.shuffle(VN)
    L.add("variants:%s" % (n if n < 6 else "6+"))
    for k in range(n):
        t = s.weighted([(3, "t"), (2, "y"), (1, "same")])
        t = s.pick(ts) if t == "t" and ts else (vs and t == "same" and last) or (y.ty(2) if n < 20 else y.ty(0))
        last = t
        vs.append("%s%s(%s%s%s)" % (s.pick(VAR_ATTRS), names[k] if k < len(names) else "V%d" % k, s.pick(FIELD_ATTRS), t, s.pick(["", "", ","])))
    lst = ", ".join(s.shuffle(LISTED)[:s.weighted([(3, 1), (3, 2), (2, 3), (1, 6)])]) + s.pick(["", ","])
    tail = "," if s.draw(2) else ""
    t = "%s #[spy::before(%d)] %s #[auto_enums::enum_derive(%s)] %s #[spy::after(%d)] %s %senum %s%s%s { %s%s }" % (
        s.pick(OUTER), i, s.pick(ABOVE), lst, s.pick(BELOW), i, s.pick(BELOW + OUTER[-1:]), s.pick(["", "pub ", "pub(crate) ", "pub(in self::super) ", "pub(super) "]), s.pick(["E", "r#Enum", "Some", "__E", "Iterator", "É"]),
        "<%s%s>" % (", ".join(gs), s.pick(["", ","]) if gs else "") if gs or s.draw(9) == 8 else "", " where %s%s" % (", ".join(wh), s.pick(["", ","]) if wh else "") if wh or s.draw(12) == 11 else "", ", ".join(vs), tail)
    if s.draw(8) == 7:
        L.add("through macro_rules")
        t2 = re.sub(r"(?<![\w#])T0\)", "$t)", t.replace("(&'a str", "($t").replace("Vec<u8>", "$t"))
        t = "macro_rules! w { ($t:ty, $v:vis, $i:ident) => { %s } } w!((Vec<T0>), pub, Q);" % t2 if "$" not in t else t
    return "mod c%d { %s }" % (i, t), L


# ---------------------------------------------------------------- whom the impls apply to
IT = ["std::vec::IntoIter<u64>", "std::vec::IntoIter<u8>", "std::ops::Range<u64>", "P<1>", "P<2>", "Box<P<3>>", "Box<dyn Iterator<Item = u64>>", "std::str::Chars<'static>", "std::iter::Empty<u64>", "std::iter::Empty<u8>", "std::iter::Repeat<u64>",
      "std::slice::Iter<'static, u64>", "PT<1>", "Qv<1>", "std::iter::FromFn<fn() -> Option<u64>>", "std::ops::RangeFrom<u64>", "std::iter::Rev<std::vec::IntoIter<u64>>"]
IO = ["io::Cursor<Vec<u8>>", "io::Empty", "P<1>", "Box<P<3>>", "&'static [u8]", "Vec<u8>", "io::Sink", "io::Cursor<&'static [u8]>", "Box<dyn io::Read>", "io::BufReader<io::Empty>", "Qv<2>", "std::collections::VecDeque<u8>", "&'static mut Vec<u8>"]
FMT = ["u64", "u8", "String", "&'static str", "f64", "P<1>", "Box<u64>", "()", "fn(u64) -> u64", "std::num::ParseIntError", "fmt::Error", "Box<dyn std::error::Error>", "Option<u64>", "Vec<u8>", "*const u8", "Qv<3>", "std::num::NonZeroU8", "io::Error"]
DEREF = ["String", "Vec<u64>", "Box<u64>", "P<1>", "&'static str", "&'static u64", "std::sync::Arc<u64>", "std::borrow::Cow<'static, str>", "[u64; 3]", "Box<[u64]>", "std::path::PathBuf", "Vec<u8>", "std::collections::VecDeque<u64>", "Qv<1>"]
FUT = ["std::future::Ready<u64>", "std::future::Ready<u8>", "std::future::Pending<u64>", "P<1>", "std::pin::Pin<Box<P<1>>>", "Box<dyn std::future::Future<Output = u64> + Unpin>", "std::pin::Pin<Box<dyn std::future::Future<Output = u8>>>", "Qv<4>"]
FN = ["fn(u64) -> u64", "fn(u64) -> u8", "Box<dyn Fn(u64) -> u64>", "Box<dyn FnMut(u64) -> u64>", "Box<dyn FnOnce(u64) -> u64>", "P<1>", "fn(u8) -> u64", "&'static dyn Fn(u64) -> u64"]
RNG = ["std::ops::Range<u64>", "std::ops::RangeFull", "std::ops::RangeTo<u64>", "(Bound<u64>, Bound<u64>)", "std::ops::Range<u8>", "P<1>", "std::ops::RangeInclusive<&'static u64>"]
EXT = ["Vec<u64>", "String", "Vec<u8>", "std::collections::BTreeSet<u64>", "P<1>", "std::collections::VecDeque<u64>", "()", "Qv<5>"]
NOPE = ["Nope", "Box<Nope>", "Option<Nope>"]
UNS = ["str", "[u8]", "[u64]", "dyn Iterator<Item = u64>", "dyn fmt::Debug", "dyn Fn(u64) -> u64", "dyn io::Read", "dyn std::error::Error", "(dyn std::future::Future<Output = u64> + Unpin)", "Nope"]
FAM = [("IT", IT, ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen"]), ("IO", IO, ["Read", "BufRead", "Write", "Seek", "fmt::Write"]), ("FMT", FMT, enums.FMT_ALL + ["Error", "fmt::Write"]),
       ("DEREF", DEREF, ["Deref", "DerefMut", "Index", "IndexMut", "AsRef", "AsMut"]), ("FUT", FUT, ["Future", "Coroutine"]), ("FN", FN, ["Fn", "FnMut", "FnOnce"]), ("RNG", RNG, ["RangeBounds"]), ("EXT", EXT, ["Extend"])]
# types that mostly go together
PEERS = {"IT": [["std::vec::IntoIter<u64>", "std::ops::Range<u64>", "P<1>", "P<2>", "Box<dyn Iterator<Item = u64>>", "std::iter::Empty<u64>", "std::iter::Rev<std::vec::IntoIter<u64>>", "std::iter::FromFn<fn() -> Option<u64>>"], ["std::vec::IntoIter<u8>", "std::iter::Empty<u8>"]],
         "IO": [["io::Cursor<Vec<u8>>", "io::Cursor<&'static [u8]>", "io::Empty", "P<1>"], ["Vec<u8>", "io::Sink", "io::Cursor<Vec<u8>>", "P<2>"], ["&'static [u8]", "io::Empty", "io::BufReader<io::Empty>", "P<1>"]],
         "FMT": [["u64", "u8", "i32", "P<1>"], ["f64", "f32", "u64", "u8"], ["io::Error", "fmt::Error", "std::num::ParseIntError", "P<1>"], ["String", "&'static str", "u64", "Box<u64>", "P<3>"], ["*const u8", "fn(u64) -> u64", "&'static str", "P<1>"]],
         "DEREF": [["String", "&'static str", "std::borrow::Cow<'static, str>"], ["Vec<u64>", "Box<[u64]>", "P<1>"], ["Box<u64>", "&'static u64", "std::sync::Arc<u64>"], ["Vec<u8>", "std::vec::Vec<u8>"]],
         "FUT": [["std::future::Ready<u64>", "std::future::Pending<u64>", "P<1>", "Box<dyn std::future::Future<Output = u64> + Unpin>", "std::pin::Pin<Box<P<1>>>"], ["std::future::Ready<u8>", "std::pin::Pin<Box<dyn std::future::Future<Output = u8>>>"]],
         "FN": [["fn(u64) -> u64", "Box<dyn Fn(u64) -> u64>", "P<1>", "&'static dyn Fn(u64) -> u64"], ["Box<dyn FnMut(u64) -> u64>", "fn(u64) -> u64", "P<1>"], ["Box<dyn FnOnce(u64) -> u64>", "fn(u64) -> u64"]],
         "RNG": [RNG[:4] + ["P<1>"]], "EXT": [["Vec<u64>", "std::collections::BTreeSet<u64>", "P<1>", "std::collections::VecDeque<u64>"]]}
UNSP = {"IT": ["dyn Iterator<Item = u64>"], "IO": ["dyn io::Read", "[u8]"], "FMT": ["str", "dyn fmt::Debug", "dyn std::error::Error", "[u8]"], "DEREF": ["str"], "FUT": ["(dyn std::future::Future<Output = u64> + Unpin)"], "FN": ["dyn Fn(u64) -> u64"], "RNG": ["str"], "EXT": ["str"]}
# where the associated types of all fields have to agree
SAME = {"Iterator": "SameItem", "DoubleEndedIterator": "SameItem", "ExactSizeIterator": "SameItem", "FusedIterator": "SameItem", "TrustedLen": "SameItem", "Future": "SameFut", "Coroutine": "SameCo", "Deref": "SameTarget", "DerefMut": "SameTarget",
        "Index": "SameIndex", "IndexMut": "SameIndex", "Fn": "SameFn", "FnMut": "SameFn", "FnOnce": "SameFn"}
HEAD = """pub struct Nope;
pub trait Same1 {}
pub trait SameItem {} impl<A: Iterator, B: Iterator<Item = A::Item>> SameItem for (A, B) {}
pub trait SameFut {} impl<A: Future, B: Future<Output = A::Output>> SameFut for (A, B) {}
pub trait SameCo {} impl<A: Coroutine<u64>, B: Coroutine<u64, Yield = A::Yield, Return = A::Return>> SameCo for (A, B) {}
pub trait SameTarget {} impl<A: Deref, B: Deref<Target = A::Target>> SameTarget for (A, B) {}
pub trait SameIndex {} impl<A: Index<usize>, B: Index<usize, Output = A::Output>> SameIndex for (A, B) {}
pub trait SameFn {} impl<A: FnOnce<(u64,)>, B: FnOnce<(u64,), Output = A::Output>> SameFn for (A, B) {}
pub trait Tag {} impl<T: ?Sized> Tag for T {}
pub trait Conv { type To; } impl Conv for u8 { type To = std::vec::IntoIter<u64>; } impl Conv for u16 { type To = String; } impl Conv for u32 { type To = Nope; } impl Conv for u64 { type To = std::ops::Range<u64>; } impl Conv for Nope { type To = io::Empty; }
"""
BOUNDS = dict(d12.CORE_B, AsRef="AsRef<str>", AsMut="AsMut<[u64]>", Fn="Fn<(u64,)>", FnMut="FnMut<(u64,)>", FnOnce="FnOnce<(u64,)>")
# forms of a field around a parameter; '@' is the parameter, '#' another one
FORMS = [(12, "@"), (3, "Box<@>"), (1, "Option<@>"), (1, "Vec<@>"), (1, "(@, #)"), (2, "&'a @"), (2, "&'a mut @"), (1, "[@; 2]"), (1, "[@; N]"), (1, "std::iter::Rev<@>"), (1, "io::BufReader<@>"), (1, "io::Cursor<@>"), (1, "std::pin::Pin<Box<@>>"), (1, "std::sync::Arc<@>"),
         (1, "std::iter::Chain<@, #>"), (1, "std::marker::PhantomData<@>"), (1, "fn(@) -> #"), (1, "std::ops::Range<@>"), (1, "Result<@, #>"), (1, "std::iter::Once<@>"), (1, "std::future::Ready<@>"), (1, "Box<dyn Iterator<Item = @>>"), (1, "std::vec::IntoIter<@>")]
PTR = ["Box<@>", "&'a @", "&'a mut @", "std::sync::Arc<@>", "Box<@>"]


def subst(t, m):
    return re.sub(r"'?\b[A-Za-z_][A-Za-z_0-9]*\b", lambda x: m.get(x.group(0), x.group(0)), t)


def gen_impl(s):
    fam, goods, traits = s.pick(FAM)
    listed = s.shuffle(traits)[:s.weighted([(3, 1), (2, 2), (1, 4)])]
    listed = enums.with_explicit(listed)
    if s.chance(1, 5):
        listed += [t for t in [s.pick([t for _, _, ts in FAM for t in ts])] if t not in listed]
    cl = enums.closure(listed)
    L = {"listed:" + t for t in cl}
    np = s.weighted([(4, 2), (3, 1), (2, 3), (1, 4)])
    names = s.shuffle([x for x in enums.TPARAMS if x not in ("P", "Q", "Item")])[:np]
    uns = [s.chance(1, 6) for _ in names]
    assoc = [s.chance(1, 10) for _ in names]
    lt = cp = False
    n = s.weighted([(3, 2), (2, 1), (2, 3), (1, 5), (1, 8)])
    fields = []
    simple = s.chance(1, 2)
    must = any(t in enums.GENERIC_ONLY for t in cl)
    for k in range(n):
        i = k if k < np else s.draw(np)
        p = names[i]
        if uns[i]:
            f = s.pick(PTR)
            L.add("unsized argument")
        else:
            f = s.weighted(FORMS[:1] if simple and s.chance(3, 4) else FORMS)
            if f == "@" and assoc[i]:
                # one only: requiring `Item = <P as Iterator>::Item` of a projected P is a cycle for rustc
                f = "@" if any("::To" in x and subst(x, {p: "?"}) != x for x in fields) else s.pick(["<@ as Conv>::To", "@::To"])
                L.add("projected")
        other = s.pick([x for x, u in zip(names, uns) if not u] or ["u8"])
        f = f.replace("@", p).replace("#", other)
        lt |= "'a" in f
        cp |= "N]" in f
        if f != p:
            L.add("nested field type")
        if f in fields:
            L.add("repeated field type")
        fields.append(f)
    # parameters that no field uses need one
    for i, p in enumerate(names):
        if not any(subst(f, {p: "?"}) != f for f in fields):
            fields.append("Box<%s>" % p if uns[i] else p)
    gp, wh = [], []
    for p, u, a in zip(names, uns, assoc):
        b = (["?Sized"] if u else []) + (["Conv"] if a else []) + (["Tag"] if s.chance(1, 5) else []) + (["'a"] if lt and s.chance(1, 2) else [])
        if b and s.chance(1, 3) and "?Sized" not in b:
            wh.append("%s: %s" % (p, " + ".join(b)))
            b = []
        gp.append(p + (": " + " + ".join(b) if b else ""))
    if s.chance(1, 8):
        wh.append("%s: Tag" % s.pick(fields))
    if s.chance(1, 8):
        wh.append("for<'z> &'z %s: Tag" % s.pick(names))
    if s.chance(1, 8) and not cp:
        gp[-1] += " = %s" % ("u8" if assoc[-1] else "String")
    gp = (["'a"] if lt else []) + gp + (["const N: usize"] if cp else [])
    lst = enums.trait_list(s, listed)
    vn = s.shuffle(enums.VNAMES)[:len(fields)]
    decl = "#[auto_enums::enum_derive(%s)]\npub enum Ee<%s>%s { %s }" % (lst, ", ".join(gp), " where %s" % ", ".join(wh) if wh else "", ", ".join("%s(%s)" % x for x in zip(vn, fields)))
    body, tys, qs = [], [], []

    def has(ty, b):
        # one query type per bound
        if b not in qs:
            qs.append(b)
        return "q%d::W::<%s>::H" % (qs.index(b), ty)
    for _ in range(6):
        m = {"'a": "'static", "N": "2"}
        peers = s.pick(PEERS[fam]) if s.chance(2, 3) else None
        one = s.pick(goods)
        for p, u, a in zip(names, uns, assoc):
            if a:
                m[p] = s.pick(["u8", "u16", "u32", "u64", "Nope"])
            elif u:
                m[p] = s.pick(UNSP[fam] + peers) if peers else s.pick(UNS + (goods if s.draw(2) else []))
            elif peers:
                m[p] = s.pick(peers)
            else:
                m[p] = (one if s.chance(1, 2) else s.pick(goods)) if s.chance(2, 3) else s.pick(NOPE + FMT[:4] + IT[:2])
        args = (["'static"] if lt else []) + [m[p] for p in names] + (["2"] if cp else [])
        ty = "e::Ee<%s>" % ", ".join(args)
        tys.append(ty)
        fs = [subst(f, m) for f in fields]
        for x in [p for p, a in zip(names, assoc) if a]:
            fs = [f.replace("%s::To" % m[x], "<%s as e::Conv>::To" % m[x]) if f == "%s::To" % m[x] else f for f in fs]
        fs = [f.replace(" as Conv>", " as e::Conv>") for f in fs]
        fs = list(dict.fromkeys(fs))
        for t in cl:
            b = BOUNDS[t]
            ex = [has(f, b) for f in fs]
            if t in SAME:
                ex += [has("(%s, %s)" % (fs[0], f), "e::" + SAME[t]) for f in fs[1:]]
            body.append("    ask(cx, %s, %s, \"%s for %s\");" % (has(ty, b), " && ".join(ex), t, ty.replace('"', "")))
    Q = "".join("pub mod q%d { use super::*; pub struct W<T: ?Sized>(std::marker::PhantomData<T>); pub trait No { const H: bool = false; } impl<T: ?Sized> No for W<T> {} impl<T: ?Sized + %s> W<T> { pub const H: bool = true; } }\nuse q%d::No as _;\n" % (i, b, i) for i, b in enumerate(qs))
    USE = "use sup::*;\nuse std::{fmt, io, ops::*, future::Future};\n"
    mod = USE + HEAD + decl
    src = USE + Q + "use e::Nope;\npub mod e {\n%s\n}\nfn ask(cx: &mut Cx, got: bool, want: bool, what: &str) { cx.stat(if want { \"n_applies\" } else { \"n_does_not_apply\" }, 1); cx.ensure(got == want, || format!(\"{what} is {}, but for the fields it is {}\", if got { \"implemented\" } else { \"not implemented\" }, want)); }\npub fn run(cx: &mut Cx) {\n%s\n}\n" % (mod, "\n".join(body))
    ref = USE + "use e::Nope;\npub mod e {\n%s\n}\n#[allow(dead_code)] struct S<T: ?Sized>(std::marker::PhantomData<T>);\npub fn run(cx: &mut Cx) {\n%s\n}\n" % (mod.replace(decl, decl.split("\n", 1)[1]), "\n".join("    let _ = size_of::<%s>();" % t for t in tys))
    c = Case(src, ref)
    c.labels = L
    c.meta["show"] = decl + "\n" + "\n".join(body[:3])
    return c


def check(rep):
    rep.rule.append("(1) Random enum definitions recorded before and after enum_derive, compared as syntax trees. (2) Random generic enums with nested field types: for random arguments (and every implemented trait) the compiler is asked whether the enum "
                    "implements the trait and whether all its fields do, with equal associated types; the answers must agree. Non-trivial: (1) enum compared; (2) at least one argument list for which it applies and one for which it does not.")
    so, exe = build.spy()
    mac = build.cargo_build("all", build.ALL_FEATURES)
    d = build.scratch("D15s")
    try:
        rp = rep.replay
        if not rp or rp.get("generator") == "definition":
            n = 1 if rp else int((5000 if rep.tier == "quick" else 60000) * rep.scale)
            todo = []
            for i in range(n):
                s = choice.Src(choices=rp["choices"]) if rp else choice.Src(seed="D15/def/%d/%d" % (rep.seed, i))
                t, lb = enum_case(s, i)
                todo.append((i, t, lb, s.log))
            chunks = [todo[i:i + 300] for i in range(0, n, 300)]
            with cf.ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda k: c09.run_batch(os.path.join(d, "b%d" % k), mac, so, exe, [(i, t) for i, t, _, _ in chunks[k]], stop=20), range(len(chunks))))
            bad = []
            for ch, (res, err) in zip(chunks, outs):
                for i, t, lb, log in ch:
                    r = res.get(i, ["LOST"])
                    rep.label(["definition: " + r[0]])
                    if r[0] in ("NONE", "LOST", "SKIP") and os.environ.get("VERIF_DEBUG"):
                        print(r, t)
                    if r[0] == "OK":
                        rep.evaluations += 1
                        rep.label(lb)
                        rep.nontrivial.add(report.digest(t.split("(", 1)[1]))
                        if len(rep.nontrivial) in (4,):
                            rep.sample({"source": t})
                    elif r[0] == "BAD":
                        bad.append((log, t, r[1]))
            bad.sort(key=lambda x: len(x[0]))
            k = [0]
            for log, t, why in bad[:2]:

                def test_many(lists):
                    gs = [(j, enum_case(choice.Src(choices=l), j)[0]) for j, l in enumerate(lists)]
                    k[0] += 1
                    r, _ = c09.run_batch(os.path.join(d, "s%d-%d" % (k[0], rep.evaluations)), mac, so, exe, gs, stop=20)
                    return [r.get(j, ["x"])[0] == "BAD" for j in range(len(lists))]
                m = log if rp else choice.shrink(log, test_many, rounds=8)
                t2, _ = enum_case(choice.Src(choices=m), 0)
                r, _ = c09.run_batch(os.path.join(d, "f%d-%d" % (k[0], len(log))), mac, so, exe, [(0, t2)], stop=20)
                if r.get(0, ["x"])[0] == "BAD":
                    t, why, log = t2, r[0][1], m
                rep.violation("d15:" + report.digest(t), why.replace("\\n", "\n") + "\n" + t, {"generator": "definition", "choices": log, "source": t})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m, d, flags = dprops.setup(rep)
    try:
        batch = rust.Batch(d, flags, dprops.PRELUDE)
        report.differential(rep, batch, gen_impl, dprops.n_cases(rep, 600, 8000), rep.seed, gen_name="applies", size=20,
                            nontrivial=lambda c, r: r.stats.get("n_applies", 0) and r.stats.get("n_does_not_apply", 0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"D15": check}
