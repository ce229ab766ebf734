"""C07: type_analysis."""
import re
import shutil
from vk import build, rust, report
from vk.rust import Case
from . import cprops, dprops, enums
from .cgen import T as TT, j, only_a, Attr, Sc, G
from .c11 import LETATTRS

# trait -> (spellings with {} for bound arguments, alternatives of bound text)
SP = {
    "Iterator": ["Iterator<Item = u64>"],
    "DoubleEndedIterator": ["DoubleEndedIterator<Item = u64>"],
    "ExactSizeIterator": ["ExactSizeIterator<Item = u64>"],
    "FusedIterator": ["FusedIterator<Item = u64>"],
    "Extend": ["Extend<u64> + Extend<&'static str>", "for<'z> Extend<&'z str> + Extend<u64>"],
    "Future": ["Future<Output = u64>"],
    "Coroutine": ["Coroutine<u64, Yield = u64, Return = String>"],
    "Read": ["Read", "io::Read"],
    "BufRead": ["BufRead", "io::BufRead"],
    "Write": ["Write", "io::Write"],
    "Seek": ["Seek", "io::Seek"],
    "Debug": ["Debug", "fmt::Debug"],
    "Display": ["Display", "fmt::Display"],
    "fmt::Binary": ["fmt::Binary"], "fmt::Octal": ["fmt::Octal"], "fmt::LowerHex": ["fmt::LowerHex"], "fmt::UpperHex": ["fmt::UpperHex"],
    "fmt::LowerExp": ["fmt::LowerExp"], "fmt::UpperExp": ["fmt::UpperExp"], "fmt::Pointer": ["fmt::Pointer"],
    "fmt::Write": ["fmt::Write"],
    "Error": ["Error", "error::Error"],
    "Deref": ["Deref<Target = Tgt>"], "DerefMut": ["DerefMut<Target = Tgt>", "DerefMut"],
    "Index": ["Index<usize, Output = u64>"], "IndexMut": ["IndexMut<usize, Output = u64>"],
    "AsRef": ["AsRef<str> + AsRef<[u64]>", "AsRef<[u64]> + AsRef<str>"], "AsMut": ["AsMut<[u64]> + AsMut<Tgt>"],
    "RangeBounds": ["RangeBounds<u64>"],
    "Fn": ["Fn(u64) -> u64"], "FnMut": ["FnMut(u64) -> u64"], "FnOnce": ["FnOnce(u64) -> u64"],
}
# a generic query per trait
QUERY = {
    "Iterator": "Iterator", "DoubleEndedIterator": "DoubleEndedIterator", "ExactSizeIterator": "ExactSizeIterator", "FusedIterator": "std::iter::FusedIterator",
    "TrustedLen": "std::iter::TrustedLen", "Extend": "Extend<u64>", "Future": "Future", "Coroutine": "Coroutine<u64>", "Read": "io::Read", "BufRead": "io::BufRead", "Write": "io::Write", "Seek": "io::Seek",
    "Debug": "fmt::Debug", "Display": "fmt::Display", "fmt::Binary": "fmt::Binary", "fmt::Octal": "fmt::Octal", "fmt::LowerHex": "fmt::LowerHex",
    "fmt::UpperHex": "fmt::UpperHex", "fmt::LowerExp": "fmt::LowerExp", "fmt::UpperExp": "fmt::UpperExp", "fmt::Pointer": "fmt::Pointer", "fmt::Write": "fmt::Write",
    "Error": "std::error::Error", "Deref": "Deref", "DerefMut": "DerefMut", "Index": "Index<usize>", "IndexMut": "IndexMut<usize>", "AsRef": "AsRef<str>",
    "AsMut": "AsMut<[u64]>", "RangeBounds": "RangeBounds<u64>", "Fn": "Fn(u64) -> u64", "FnMut": "FnMut(u64) -> u64", "FnOnce": "FnOnce(u64) -> u64",
    "Clone": "Clone", "Copy": "Copy", "PartialEq": "PartialEq", "Hash": "std::hash::Hash",
}
USES = ("use sup::*;\nuse std::{error, error::Error, fmt, fmt::{Debug, Display}, io, io::{Read, BufRead, Write, Seek}, ops::*, future::Future, iter::FusedIterator, hash::Hash};\n"
        "use auto_enums::auto_enum;\n"
        "macro_rules! has { ($x:expr, $($t:tt)*) => {{ struct Q<'q, T>(&'q T); trait No { fn q(&self) -> bool { false } } impl<'q, T> No for &Q<'q, T> {} "
        "trait Yes { fn q(&self) -> bool { true } } impl<'q, T: $($t)*> Yes for Q<'q, T> {} (&Q(&$x)).q() }} }\n")


def one_impl(t):
    """What to drive when the trait is known for one set of arguments only."""
    m, o, e = dprops.T[t][:3]
    return m, [x for x in o if x not in dprops.SEVERAL], [x for x in e if x not in dprops.SEVERAL]


def bounds(s, traits, lt):
    parts = []
    for t in traits:
        parts += s.pick(SP[t]).split(" + ")
    parts = s.shuffle(parts)
    extra = s.subset([lt, "Send", "Sync", "Sized"], 1, 5)
    for e in extra:
        i = s.draw(len(parts) + 1)
        parts.insert(i, e)
    t = " + ".join(parts)
    if s.chance(1, 10):
        t += " +"
    return t


FN_OPS = {"Fn", "FnMut", "FnOnce"}


def gen_sets(rounds):
    names = list(SP)

    def gen(s):
        n = s.weighted([(3, 1), (4, 2), (4, 3), (2, 5), (1, 9), (1, len(names))])
        traits = s.shuffle(names)[:n]
        # ambiguous calls are not the macro's business, but Deref makes every method call on the probe ambiguous only for
        # generic drivers, which name their traits
        cl = enums.closure(traits)
        expl = s.subset(traits, 1, 5)
        # a trait given only in the arguments
        only = [x for x in s.shuffle(names)[:s.weighted([(5, 0), (2, 1), (1, 2)])] if x not in cl] if s.chance(1, 2) else []
        # what is implied by the arguments need not be repeated
        letf = s.chance(1, 2)
        lbl = {"traits:%d" % min(n, 6), "let" if letf else "function"}
        if expl or only:
            lbl.add("with explicit traits")
        a = ", ".join(s.shuffle([enums.spelling(s, t) for t in expl + only]))
        if only and not letf:
            a = ", ".join(s.shuffle(expl + only))
        attr = "#[auto_enum%s]" % ("(%s)" % a if a else "")
        if not a and s.chance(1, 6) and False:
            attr = "#[auto_enum()]"
        all_ = enums.closure(cl + (enums.closure(only) if letf else []))
        nv = s.int(2, 4)
        ks = list(range(1, nv + 1))
        b = bounds(s, traits, "'static")
        if not letf:
            # a caller needs to know the target
            b = re.sub(r"\bDerefMut\b(?!<)", "DerefMut<Target = Tgt>", b)
        form = s.pick(["match", "if", "loop", "marker", "block", "arms"])
        ret = not letf and s.chance(1, 3)
        ops = {}
        for t in all_:
            if t not in dprops.T:
                continue
            m, o, e = one_impl(t)
            ops.setdefault(m, ([], []))
            ops[m][0].extend(o)
            ops[m][1].extend(e)
        if not letf:
            # only what the bounds show of the opaque type
            vis = set(enums.closure(traits))
            ops = {}
            for t in vis:
                if t not in dprops.T:
                    continue
                m, o, e = one_impl(t)
                ops.setdefault(m, ([], []))
                ops[m][0].extend(o)
                ops[m][1].extend(e)
        val = lambda k: "p::<%d>(d)" % k
        if form == "match" or form == "arms":
            noted = {k for k in ks if s.chance(1, 3)}
            e = "match k { " + " ".join("%s => %s," % (k - 1 if k < nv else "_", val(k) if k not in noted else "{ note(\"arm\", k); %s }" % val(k)) for k in ks) + " }"
        elif form == "if" or form == "block":
            e = " else ".join(("if k == %d { %s }" % (k - 1, val(k)) if k < nv else "{ %s }" % val(k)) for k in ks)
            if form == "block":
                e = "{ note(\"in\", k); %s }" % e
        elif form == "loop":
            e = "loop { " + " ".join("if k == %d { break %s; }" % (k - 1, val(k)) for k in ks[:-1]) + " break %s; }" % val(nv)
        else:
            e = "{ let r = " + " else ".join(("if k == %d { marker!(%s) }" % (k - 1, val(k)) if k < nv else "{ marker!(%s) }" % val(k)) for k in ks) + "; note(\"mid\", 1); r }"
        lbl.add("form " + form)
        pre = ""
        if ret:
            pre = "if k == 77 { return p::<60>(d); } if k == 78 { return p::<61>(d); } "
            lbl.add("with returns")
        if letf:
            pat = s.pick(["x", "mut x", "(x)", "x", "mut x", "x @ _"])
            la = ["", "", LETATTRS[s.draw(len(LETATTRS))]][s.draw(3)]
            decl = lambda use: "%s%s let %s: impl %s = %s; %s" % (la, attr, pat, b, e, use)
            lbl.add("pattern " + pat)
        else:
            q = s.pick(["pub fn", "pub fn", "pub unsafe fn"])
            fdecl = "%s %s f(d: &mut D, k: u64) -> impl %s { %s%s }\n" % (attr, q, b, pre, e)
            if form == "marker":
                fdecl = "%s %s f(d: &mut D, k: u64) -> impl %s { %slet r = %s; note(\"mid\", 1); r }\n" % (attr, q, b, pre, e[len("{ let r = "):-len("; note(\"mid\", 1); r }")])
            call = "unsafe { e::f(d, k) }" if "unsafe" in q else "e::f(d, k)"
            decl = lambda use: "let x = %s; %s" % (call, use)
        pick = "let k = d.r.n(%d);" % nv + (" let k = if d.r.b(1, 4) { 77 + d.r.n(2) } else { k };" if ret else "")
        body = []
        for m, (o, en) in ops.items():
            if not o and not en:
                continue
            fn = {"mut": "drive", "pin": "drive_pin", "ref": "drive_ref"}[m]
            tail = ", &[%s]" % ", ".join(en) if m == "mut" else ""
            tyx = lambda k: "%s::<P<%d>>(%s, d, &[%s]%s)" % (fn, k, val(k), ", ".join(o), tail)
            arms = []
            for k in ks:
                v = val(k)
                if form in ("match", "arms") and k in noted:
                    v = "{ note(\"arm\", k); %s }" % v
                if form == "block":
                    v = "{ note(\"in\", k); %s }" % v
                if form == "marker":
                    v = "{ let v = %s; note(\"mid\", 1); v }" % v
                arms.append("%s => %s::<P<%d>>(%s, d, &[%s]%s)," % (k - 1 if k < nv else "_", fn, k, v, ", ".join(o), tail))
            if ret:
                arms = ["%d => %s::<P<%d>>(p::<%d>(d), d, &[%s]%s)," % (77 + i, fn, 60 + i, 60 + i, ", ".join(o), tail) for i in (0, 1)] + arms
            want = "match k { " + " ".join(arms) + " }"
            body.append("cx.same(\"%s\", |d| { %s %s }, |d| { %s %s });" % (m, pick, decl("%s(x, d, &[%s]%s)" % (fn, ", ".join(o), tail)), pick, want))
        if letf:
            qs = " ".join("let g = has!(x, %s); cx.check(\"%s implemented: expected %s\", g == %s);" % (q, t, str(t in all_).lower(), str(t in all_).lower())
                          for t, q in QUERY.items())
            body.append("{ let d = &mut D::new(1); let k = 0u64; %s }" % decl(qs))
        src = USES + "pub mod e { use super::*;\n%s}\npub fn run(cx: &mut Cx) { cx.seed = %d; cx.rounds = %d;\n%s\n}\n" % (
            "" if letf else fdecl, s.draw(1 << 20), rounds, "\n".join(body))
        c = Case(src, labels=lbl)
        c.meta["show"] = body[0] if letf else fdecl
        return c
    return gen


# ---------------------------------------------------------------- values with derived traits
VALS = [("1i32", "2i32"), ("'c'", "'d'"), ("\"str\"", "\"x\""), ("3u8", "4u8"), ("(1u8, 'q')", "(2u8, 'a')"), ("[1u64, 2]", "[3u64, 4]"), ("Some(4u16)", "None"), ("true", "false")]
VT = ["Clone", "Copy", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Debug"]
NEEDS = {"Copy": ["Clone"], "Eq": ["PartialEq"], "PartialOrd": ["PartialEq"], "Ord": ["PartialOrd", "Eq", "PartialEq"]}


def gen_values(rounds):
    def gen(s):
        pick = s.subset(VT) or ["Clone"]
        pick += [x for t in list(pick) for x in NEEDS.get(t, []) if x not in pick]
        pick = list(dict.fromkeys(pick))
        expl = s.subset(pick, 1, 4)
        tys = s.shuffle(pick)
        # every trait of a let's type is listed there or in the arguments
        inty = [t for t in tys if t not in expl or s.chance(1, 2)] or [tys[0]]
        vals = s.shuffle(VALS)[:s.int(2, 4)]
        nv = len(vals)
        attr = "#[auto_enum%s]" % ("(%s)" % ", ".join(s.shuffle(expl)) if expl else "")
        m = "match k { " + " ".join("%s => %s," % (i if i < nv - 1 else "_", v[0]) for i, v in enumerate(vals)) + " }"
        m = "match k { " + " ".join("%s => if alt { %s } else { %s }," % (i if i < nv - 1 else "_", v[0], v[1]) for i, v in enumerate(vals)) + " }"
        # two values from one expression of one enum type: through a closure-free loop over an array
        obs = []
        if "Copy" in pick:
            obs.append("let y = x; note(\"copied\", 0);")
        if "Clone" in pick:
            obs.append("let y = x.clone();")
            if "PartialEq" in pick:
                obs.append("note(\"eq\", x == y);")
            if "PartialOrd" in pick:
                obs.append("note(\"cmp\", x.partial_cmp(&y));")
            if "Ord" in pick:
                obs.append("note(\"ord\", x.cmp(&y));")
        if "PartialEq" in pick:
            obs.append("note(\"self\", x == x);")
        if "Debug" in pick:
            obs.append("note(\"dbg\", &x);")
        if "Hash" in pick:
            obs.append("{ use std::hash::Hasher; let h = |z: &_| { let mut h = std::collections::hash_map::DefaultHasher::new(); Hash::hash(z, &mut h); h.finish() }; note(\"hash\", h(&x) == h(&x)); }")
        want = []
        if "Copy" in pick:
            want.append("note(\"copied\", 0);")
        if "Clone" in pick:
            if "PartialEq" in pick:
                want.append("note(\"eq\", true);")
            if "PartialOrd" in pick:
                want.append("note(\"cmp\", Some(std::cmp::Ordering::Equal));")
            if "Ord" in pick:
                want.append("note(\"ord\", std::cmp::Ordering::Equal);")
        if "PartialEq" in pick:
            want.append("note(\"self\", true);")
        if "Debug" in pick:
            arms = " ".join("%s => if alt { note(\"dbg\", %s) } else { note(\"dbg\", %s::<_>) }," % (i if i < nv - 1 else "_", v[0], v[1]) if False else
                            "%s => { let mut z = %s; if !alt { z = %s; } note(\"dbg\", z) }" % (i if i < nv - 1 else "_", v[0], v[1]) for i, v in enumerate(vals))
            want.append("match k { %s }" % arms)
        if "Hash" in pick:
            want.append("note(\"hash\", true);")
        qs = " ".join("{ let g = has!(x, %s); cx.check(\"%s implemented: expected %s\", g == %s); }" % (
            {"Hash": "std::hash::Hash"}.get(t, t), t, str(t in pick).lower(), str(t in pick).lower()) for t in VT + ["Iterator", "fmt::Display"])
        let = "%s let %s: impl %s = %s;" % (attr, s.pick(["x", "mut x"]), " + ".join(inty), m)
        src = USES + ("pub fn run(cx: &mut Cx) { cx.seed = %d; cx.rounds = %d;\ncx.same(\"values\", |d| { let k = d.r.n(%d); let alt = d.r.b(1, 2); %s %s }, |d| { let k = d.r.n(%d); let alt = d.r.b(1, 2); %s });\n"
                      "{ let k = 0u64; let alt = true; %s %s }\n}\n") % (s.draw(1 << 20), rounds, nv, let, " ".join(obs), nv, " ".join(want), let, qs)
        c = Case(src, labels={"passed-on traits"})
        c.meta["show"] = let
        return c
    return gen


# ---------------------------------------------------------------- programs
SPELL = {"std::fmt::Debug": ["Debug", "fmt::Debug"], "std::fmt::Display": ["Display", "fmt::Display"], "std::future::Future<Output = i64>": ["Future<Output = i64>"],
         "std::io::Read": ["Read", "io::Read"], "std::io::Write": ["Write", "io::Write"], "std::error::Error": ["Error", "error::Error"]}


def gen_programs(s):
    g = G(s, {"exit": 3, "ifact": 4, "mark": 2, "never": 1, "ret": 4}, size=30 + 20 * s.draw(3))
    at = Attr(cprops.pick_prof(g, True), "marker")
    place = s.weighted([(5, "fn"), (4, "let"), (2, "method"), (2, "try"), (3, "none"), (2, "inside"), (2, "one")])
    g.on("placement " + place)
    parts = [s.pick(SPELL.get(x, [x])) for x in at.imp.split(" + ")]
    listed = [x.strip() for x in at.args.split(", ")]
    a = ""
    if s.chance(1, 4):
        a = ", ".join(s.shuffle(s.subset(listed)))
        if a:
            g.on("with explicit traits")
    parts = s.shuffle(parts + s.subset(["'static"], 1, 5))
    imp = "impl " + " + ".join(parts)
    A = only_a("#[auto_enum%s] " % ("(%s)" % a if a else ""))
    uses = "use std::{error, error::Error, fmt, fmt::{Debug, Display}, io, io::{Read, Write}, future::Future};"
    ret = "wrap" if place in ("fn", "method") else "try" if place == "try" else "i64"
    inside_fn = place == "inside" and s.chance(1, 2)
    if inside_fn:
        ret = None
    if place == "one":
        # a single value needs no enum, whatever else is annotated inside
        g.w["child"], g.childprofs = 6, cprops.SIMPLE
        A = only_a("#[auto_enum] ")
        st, s2 = g.stmts(Sc(vars=("p",)), 1 + g.few(3), 3)
        x = at.wrap(j("id(", g.single(s2, 2, at), ")"))
        if s.chance(1, 4):
            x = j("return ", x)
        f = j(A, "pub fn f(p: i64) -> ", TT(imp, at.bty + "<'static>"), " { ", st, " ", x, " }")
        g.wraps = 2
        src, ref = cprops.module(f, TT("%s(M::f(d(900, 4) as i64));" % at.obs), use=cprops.AUSE + uses)
        return Case(src, ref, labels=g.labels, meta={"show": f.a})
    sc = Sc(vars=("p",), attr=at, ret=ret, retattr=at if ret == "wrap" else None, tryattr=at if ret == "try" else None)
    if place == "none":
        # nothing to analyse: the attribute changes nothing
        sc = Sc(vars=("p",), ret="i64")
        st, s2 = g.stmts(sc, 1 + g.few(3), 3)
        e = g.iexpr(s2, 3)
        f = j(s.pick(["", "#[inline] "]), only_a("#[auto_enum] "), s.pick(["pub fn", "pub unsafe fn"]).replace("unsafe ", ""), " f(p: i64) -> %s { " % "i64", st, " ",
              only_a(["", "#[auto_enum] "][g.few(2)]), "let %s = " % s.pick(["x", "mut x", "x: i64", "(x, _): (i64, i64)", "mut x: i64", "x @ _"]), T2(g, s2), "; ", e, " }")
        f = TT(fixlet(f.a), fixlet(f.r))
        dr = TT("note(\"ret\", M::f(d(900, 4) as i64));")
        g.wraps = 2
    else:
        st, s2 = g.stmts(sc, g.few(3), 3)
        if place == "inside":
            # impl Trait inside another type; only markers can fill it
            ty, mk, get = s.pick([("Option<%s>", "Some(r)", ".unwrap()"), ("Vec<%s>", "vec![r]", ".into_iter().next().unwrap()"), ("(i64, %s)", "(6i64, r)", ".1"),
                                  ("[%s; 1]", "[r; 1]", ".into_iter().next().unwrap()"), ("Result<%s, i64>", "Ok::<_, i64>(r)", ".ok().unwrap()")])
            if ty.startswith("["):
                mk = "[r]"
            g.on("impl Trait inside " + ty % "_")
            x = g.mexpr(s2, 2, at, 2)
            if inside_fn:
                f = j(A, "pub fn f(p: i64) -> ", TT(ty % imp, ty % (at.bty + "<'static>")), " { ", st, " let r = ", x, "; ev(5); %s }" % mk)
                dr = TT("%s(M::f(d(900, 4) as i64)%s);" % (at.obs, get))
            else:
                f = j("pub fn f(p: i64) -> i64 { ", st, " ", A, "let %s" % s.pick(["x", "mut x"]), only_a(": " + ty % imp), " = { let r = ", x, "; ev(5); %s }; %s(x%s); " % (mk, at.obs, get), g.iexpr(s2, 1), " }")
                dr = TT("note(\"ret\", M::f(d(900, 4) as i64));")
        elif place == "try":
            a1, a2 = g.tryx(s2, 2), g.tryx(s2, 2)
            f = j(A, "pub fn f(p: i64) -> Result<i64, ", TT(imp, at.bty + "<'static>"), "> { ", st, " Ok(add(", a1, ", ", a2, ")) }")
            dr = TT("match M::f(d(900, 4) as i64) { Ok(v) => note(\"ok\", v), Err(e) => %s(e) }" % at.obs)
        else:
            mode = g.few(4)
            if mode == 3:
                g.on("only markers")
                x = g.mexpr(s2, 2, at, 2)
                body = j("{ let r = ", x, "; ev(5); r }") if place == "let" else j("let r = ", x, "; ev(5); r")
            else:
                body = g.multi(s2, 3, 2)
            if place == "fn":
                f = j(A, "pub fn f(p: i64) -> ", TT(imp, at.bty + "<'static>"), " { ", st, " ", body, " }")
                dr = TT("%s(M::f(d(900, 4) as i64));" % at.obs)
            elif place == "method":
                f = j("pub struct MyS(pub i64); impl MyS { ", A, "pub fn f(&mut self, p: i64) -> ", TT(imp.replace(" + 'static", "").replace("'static + ", ""), at.bty + "<'static>"), " { ", st, " ", body, " } }")
                f = TT(f.a.replace("-> impl ", "-> impl ", 1), f.r)
                dr = TT("let mut s = M::MyS(4); %s(s.f(d(900, 4) as i64));" % at.obs)
            else:
                outer = only_a(["", "#[auto_enum] "][g.few(2)])
                pat = s.pick(["x", "mut x", "(x)", "x @ _"])
                f = j(outer, "pub fn f(p: i64) -> i64 { ", st, " ", A, "let %s" % pat, only_a(": " + imp), " = ", body, "; %s(x); " % at.obs, g.iexpr(s2, 1), " }")
                dr = TT("note(\"ret\", M::f(d(900, 4) as i64));")
        g.wraps = at.count
    src, ref = cprops.module(f, dr, use=cprops.AUSE + uses)
    return Case(src, ref, labels=g.labels, meta={"show": f.a})


def T2(g, sc):
    return j("\x01", g.iexpr(sc, 2), "\x01")


def fixlet(t):
    """Gives the let the value its pattern needs."""
    a, v, b = t.split("\x01")
    if a.endswith("(i64, i64) = "):
        v = "(%s, 3)" % v
    return a + v + b


def check(rep):
    q = rep.tier == "quick"
    n = int((1000 if q else 12000) * rep.scale)
    rep.rule.append("Three generators with the type_analysis feature on and traits found in the type: programs as for C01-C03 against the boxed reference (non-trivial: two leaf values or a panic reached); "
                    "trait sets on a let or function whose every listed trait is driven against the bare value and whose other traits are queried (non-trivial: at least 6 events); values with passed-on std derives.")
    mac, d, flags = cprops.setup(rep, "all", build.ALL_FEATURES)
    try:
        report.differential(rep, rust.Batch(d, flags, cprops.PRELUDE), gen_programs, n // 3, rep.seed, size=15, gen_name="c07-programs",
                            nontrivial=lambda c, r: r.stats.get("n_last_leaves", 0) >= 2 or r.stats.get("n_panicking_runs", 0) > 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m, d, flags = dprops.setup(rep)
    try:
        b = rust.Batch(d, flags, dprops.PRELUDE.replace("trusted_len", "trusted_len, stmt_expr_attributes, proc_macro_hygiene"))
        report.differential(rep, b, gen_sets(8 if q else 16), n // 4, rep.seed, size=20, gen_name="c07-sets", nontrivial=lambda c, r: r.stats.get("n_events", 0) >= 6)
        report.differential(rep, b, gen_values(4), n // 10, rep.seed, size=20, gen_name="c07-values", nontrivial=lambda c, r: r.stats.get("n_events", 0) >= 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C07": check}
