"""D12: what a trait list implements. Which traits the enum has is asked of the compiler, trait by trait."""
import shutil
from vk import build, rust, report
from vk.rust import Case
from . import enums, dprops, dprops3

CORE_B = {
    "Iterator": "Iterator", "DoubleEndedIterator": "DoubleEndedIterator", "ExactSizeIterator": "ExactSizeIterator", "FusedIterator": "std::iter::FusedIterator",
    "TrustedLen": "std::iter::TrustedLen", "Extend": "Extend<u64>", "Future": "std::future::Future", "Coroutine": "std::ops::Coroutine<u64>",
    "Read": "std::io::Read", "BufRead": "std::io::BufRead", "Write": "std::io::Write", "Seek": "std::io::Seek", "Debug": "std::fmt::Debug", "Display": "std::fmt::Display",
    "fmt::Binary": "std::fmt::Binary", "fmt::Octal": "std::fmt::Octal", "fmt::LowerHex": "std::fmt::LowerHex", "fmt::UpperHex": "std::fmt::UpperHex",
    "fmt::LowerExp": "std::fmt::LowerExp", "fmt::UpperExp": "std::fmt::UpperExp", "fmt::Pointer": "std::fmt::Pointer", "fmt::Write": "std::fmt::Write",
    "Deref": "std::ops::Deref", "DerefMut": "std::ops::DerefMut", "Index": "std::ops::Index<usize>", "IndexMut": "std::ops::IndexMut<usize>",
    "AsRef": "AsRef<str>", "AsMut": "AsMut<[u64]>", "RangeBounds": "std::ops::RangeBounds<u64>", "Fn": "Fn(u64) -> u64", "FnMut": "FnMut(u64) -> u64", "FnOnce": "FnOnce(u64) -> u64",
    "Error": "std::error::Error",
}
EXT_B = {
    "futures03::Stream": "futures::Stream", "futures03::Sink": "futures::Sink<u64>", "futures03::AsyncRead": "futures::io::AsyncRead", "futures03::AsyncWrite": "futures::io::AsyncWrite",
    "futures03::AsyncSeek": "futures::io::AsyncSeek", "futures03::AsyncBufRead": "futures::io::AsyncBufRead",
    "futures01::Future": "futures::Future", "futures01::Stream": "futures::Stream", "futures01::Sink": "futures::Sink",
    "rayon::ParallelIterator": "rayon::iter::ParallelIterator", "rayon::IndexedParallelIterator": "rayon::iter::IndexedParallelIterator", "rayon::ParallelExtend": "rayon::iter::ParallelExtend<u64>",
    "serde::Serialize": "serde::Serialize", "http_body1::Body": "http_body::Body",
    "tokio01::AsyncRead": "tokio::io::AsyncRead", "tokio01::AsyncWrite": "tokio::io::AsyncWrite",
}
for _v in ("1", "03", "02"):
    for _t in ("Read", "Write", "Seek", "BufRead"):
        EXT_B["tokio%s::Async%s" % (_v, _t)] = "tokio::io::Async" + _t
ORD_B = {"Clone": "Clone", "Copy": "Copy", "PartialEq": "PartialEq", "Eq": "Eq", "PartialOrd": "PartialOrd", "Ord": "Ord", "Hash": "std::hash::Hash"}
ORD_PATHS = {"Clone": ["std::clone::Clone"], "Copy": ["::core::marker::Copy"], "PartialEq": ["std::cmp::PartialEq", "::std::cmp::PartialEq"], "Eq": ["core::cmp::Eq"],
             "PartialOrd": ["std::cmp::PartialOrd"], "Ord": ["std::cmp::Ord"], "Hash": ["std::hash::Hash"]}
NEEDS = {"Copy": ["Clone"], "Eq": ["PartialEq"], "PartialOrd": ["PartialEq"], "Ord": ["Eq", "PartialEq", "PartialOrd"]}
# each group of external crates that can be linked under the names the attribute uses
GROUPS = {"g1": ["futures03", "tokio1", "rayon", "serde", "http_body1"], "g2": ["futures01", "tokio03"], "g3": ["futures03", "tokio02"], "g4": ["tokio01"]}
# what sup::Q implements, for lists with ordinary derives
Q = ["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "Future", "Read", "BufRead", "Write", "Seek", "Debug", "Display", "fmt::LowerHex", "fmt::Write", "Deref", "DerefMut",
     "Index", "IndexMut", "AsRef", "AsMut", "Error", "Extend"]
CUSTOM = ["spy::Custom", "::spy::Custom", "spy::Read", "spy::Iterator", "spy::Error"]


def group_traits(g):
    return [t for fx in GROUPS[g] for t in dprops3.X[fx]]


def written(s, traits, ords, customs):
    """The written list, in random order and spelling."""
    traits = list(dict.fromkeys(traits))
    implied = set()
    for t in traits:
        implied |= set(enums.closure([t])[1:])
    out, labels = [], set()
    for t in traits:
        if t in implied and s.chance(1, 3):
            continue
        out.append(enums.spelling(s, t))
    for t in sorted(implied - set(traits)):
        if s.chance(1, 4):
            out.append(enums.spelling(s, t))
        else:
            labels.add("implied trait not listed")
    for t in list(out):
        base = t.split("::")[-1]
        if base in enums.ALIASES and (t == base or t in enums.ALIASES[base]) and s.chance(1, 6):
            other = enums.ALIASES[base][0] if t == base else base
            out.append(other)
            labels.add("under both spellings")
    out += [s.weighted([(4, t)] + [(1, p) for p in ORD_PATHS[t]]) for t in ords]
    out += customs
    out = s.shuffle(out)
    if any("::" in x for x in out):
        labels.add("module-prefixed")
    sep = s.pick([", ", ","])
    return sep.join(out) + s.pick(["", "", ",", " ,"]), labels


def checks(s, expect, bounds, val, what):
    out = []
    for t, b in sorted(bounds.items()):
        out.append("    cx.ensure(has!(%s, %s) == %s, || \"%s %s %s\".to_string());" % (val, b, "true" if t in expect else "false", what, t, "is missing" if t in expect else "is implemented, but not listed"))
    return out


def make(g, only=None):
    """only: the traits that may be listed (all by default)."""
    ok = lambda t: only is None or t in only
    traits_all = [t for t in dprops.CORE + ["Error"] + group_traits(g) if ok(t)]
    qpool = [t for t in Q if ok(t)]
    bounds = dict(CORE_B)
    bounds.update({t: EXT_B[t] for t in group_traits(g)})
    bounds.update(ORD_B)

    def gen(s):
        q = s.chance(1, 3)
        pool = qpool if q else [t for t in traits_all if t != "TrustedLen"]
        n = s.weighted([(2, 1), (3, 2), (3, 3), (3, 4), (2, 6), (2, 10), (1, len(pool))])
        if q and s.chance(1, 5):
            n = 0
        traits = enums.with_explicit(s.shuffle(pool)[:n])
        ords, customs = [], []
        if q:
            for t in s.subset(list(ORD_B)):
                ords += [x for x in NEEDS.get(t, []) + [t] if x not in ords]
        elif s.chance(1, 6):
            ords = ["Clone"]
        plaindebug = "Debug" not in enums.closure(traits) and s.chance(1, 4)
        if plaindebug:
            customs.append(s.pick(["std::fmt::Debug", "core::fmt::Debug", "::std::fmt::Debug"]))
        if s.chance(1, 4):
            customs.append(s.pick(CUSTOM))
        if not traits and not ords and not customs:
            traits = ["Debug"]
        lst, labels = written(s, traits, ords, customs)
        expect = set(enums.closure(traits)) | set(ords) | ({"Debug"} if plaindebug else set())
        has = lambda b: any(t in expect for t in b)
        seed = s.draw(1 << 20)
        labels |= {"traits:%s" % (len(expect) if len(expect) < 8 else "8+")} | {"listed:" + t for t in expect}
        val = (lambda k: ("", "Qv::<%d>(%d)" % (k, s.draw(3)), "Qv<%d>" % k)) if q else None
        HEAD = "use sup::*;\nuse std::{fmt, io, ops::*, future::Future, io::{Read, Write}, collections::*};\n"
        body = []
        # a few of the traits are driven, too
        drive = s.shuffle([t for t in traits if t != "Error"])[:2] if not q else []
        if s.chance(1, 4):
            labels.add("through auto_enum")
            m = s.int(2, 6)
            vals = [("Qv::<%d>(%d)" % (k, s.draw(3)) if q else "p::<%d>(d)" % k) for k in range(1, m + 1)]
            customs2 = [c for c in customs if "Custom" not in c and "spy" not in c]
            if customs2 != customs:
                lst, lb = written(s, traits, ords, customs2)
            if not lst.strip(" ,"):
                traits = traits or ["Debug"]
                expect |= {"Debug"}
                lst = "Debug"
            arms = "".join("%s => %s, " % (k if k < m - 1 else "_", v) for k, v in enumerate(vals))
            place = s.draw(3)
            fn = ["    for k in 0..%d { let mut dd = D::new(k); let d = &mut dd;" % m]
            if place == 0:
                fn.append("    #[auto_enums::auto_enum(%s)] let v = match k { %s };" % (lst, arms))
            elif place == 1:
                fn.append("    let v = #[auto_enums::auto_enum(%s)] match k { %s };" % (lst, arms))
            else:
                fn.append("    #[auto_enums::auto_enum(%s)] let v = loop { %s };" % (lst, " ".join("if k == %d { break %s; }" % (k, v) for k, v in enumerate(vals))))
            body = fn + checks(s, expect, bounds, "&v", "the value") + ["    }"]
            src = "%spub fn run(cx: &mut Cx) {\n    cx.seed = %d;\n    cx.rounds = 2;\n%s\n}\n" % (HEAD, seed, "\n".join(body))
            show, ref = "\n".join(fn), None
        else:
            attr = "#[%s(%s)]" % (s.pick(["auto_enums::enum_derive", "::auto_enums::enum_derive"]), lst)
            sh = enums.shape(s, traits or ["Debug"], attr, value=val, kinds=() if q else ("box", "mut", "pinbox") if not ords else (), max_variants=6 if len(expect) > 6 else 12, projected=not ords and not plaindebug)  # ordinary derives do not bound projections
            labels |= sh.labels
            for v, pre, expr, ty in sh.variants[:2]:
                body.append("    { let mut dd = D::new(%d); let d = &mut dd; %s let v = e::Tt::%s(%s);" % (seed, pre, v, expr))
                body += checks(s, expect, bounds, "&v", "the enum")
                body.append("    }")
                break
            if drive:
                body += dprops.emit(s, "D12", drive, sh)
            mods = ""
            comp = [o for o in ords] + (["Debug"] if plaindebug else [])
            if comp and q:
                decl = sh.decl.replace(attr, "#[derive(%s)]" % ", ".join(comp))
                mods = "pub mod r {\nuse sup::*;\nuse std::{fmt, io, ops::*, future::Future, collections::*};\npub struct Hold<T>(T);\npub trait Has { type Ty; }\nimpl<T> Has for Hold<T> { type Ty = T; }\n%s\npub type Tt%s = %s;\n}\n" % (
                    decl, "<'x>" if "'_" in sh.concrete else "", sh.concrete.replace("'_", "'x"))
                vs = []
                for m in ("e", "r"):
                    vs.append("vec![%s]" % ", ".join("%s::Tt::%s(%s)" % (m, v, x) for v, _, e, _ in sh.variants for x in dict.fromkeys([e, e.split("(")[0] + "(1)", e.split("(")[0] + "(2)"])))
                body.append("    fn pay(e: &e::Tt) -> u64 { match e { %s } }" % ", ".join("e::Tt::%s(x) => x.0" % v for v, _, _, _ in sh.variants))
                body.append("    let (es, rs) = (%s, %s);\n    for i in 0..es.len() {" % tuple(vs))
                if "Clone" in comp:
                    body.append("    let c = Clone::clone(&es[i]); cx.ensure(std::mem::discriminant(&c) == std::mem::discriminant(&es[i]) && pay(&c) == pay(&es[i]), || format!(\"clone of value {i} differs\"));")
                if "Debug" in comp:
                    body.append("    cx.ensure(format!(\"{:?} {:#?}\", es[i], es[i]) == format!(\"{:?} {:#?}\", rs[i], rs[i]), || format!(\"the derived Debug prints {:?}, ordinarily {:?}\", es[i], rs[i]));")
                if "Hash" in comp:
                    body.append("    cx.ensure(hash_of(&es[i]) == hash_of(&rs[i]), || format!(\"the derived Hash of value {i} is not the ordinary one\"));")
                body.append("    for j in 0..es.len() {")
                for t, op in (("PartialEq", "PartialEq::eq(&%s[i], &%s[j])"), ("PartialOrd", "PartialOrd::partial_cmp(&%s[i], &%s[j])"), ("Ord", "Ord::cmp(&%s[i], &%s[j])")):
                    if t in comp:
                        body.append("    cx.ensure((%s) == (%s), || format!(\"the derived %s of values {i} and {j} is not the ordinary one\"));" % (op % ("es", "es"), op % ("rs", "rs"), t))
                body.append("    } }")
                labels.add("ordinary derives compared")
            cu = [c for c in customs if "spy" in c]
            if cu:
                decl = sh.decl.replace(attr, "#[derive(%s)]" % ", ".join(cu))
                mods += "pub mod cu {\nuse sup::*;\nuse std::{fmt, io, ops::*, future::Future, collections::*};\npub struct Hold<T>(T);\npub trait Has { type Ty; }\nimpl<T> Has for Hold<T> { type Ty = T; }\n%s\n}\n" % decl
                body.append("    cx.ensure(e::derive_input().split_whitespace().collect::<String>() == cu::derive_input().split_whitespace().collect::<String>(), || format!(\"the derive macro saw\\n{}\\ninstead of\\n{}\", e::derive_input(), cu::derive_input()));")
                labels.add("custom derive")
            src = dprops.case_src(sh, traits, body, seed, 3, extra_mod=mods)
            ref = dprops.case_src(sh, traits, [], seed, 3).replace(attr, "#[derive(%s)]" % ", ".join(comp + cu))
            show = sh.decl
        c = Case(src, ref)
        c.labels = labels
        c.meta["show"] = show
        return c
    return gen


def check(rep):
    rep.rule.append("Random trait lists (any subset of the supported traits, ordinary derives and derive macros, in any order and spelling) on random enums and auto_enum uses. The compiler is asked, for every trait "
                    "known to the check, whether the enum implements it; ordinary derives are compared with the same derives on a plain copy of the enum. Non-trivial: at least two traits listed or implied.")
    so, _ = build.spy()
    for g in GROUPS:
        if rep.replay and rep.replay.get("generator") != g:
            continue
        ext = [dprops3.EXTERNS[fx][0] for fx in GROUPS[g]]
        m, d, flags = dprops.setup(rep, fx=GROUPS[g], ext=[k for _, k in ext], extern=ext)
        batch = rust.Batch(d, flags + ["--extern", "spy=" + so], dprops.PRELUDE.replace("feature(", "feature(proc_macro_hygiene, stmt_expr_attributes, custom_inner_attributes, ", 1))
        try:
            report.differential(rep, batch, make(g), dprops.n_cases(rep, *{"g1": (300, 5000), "g2": (90, 1600), "g3": (90, 1600), "g4": (90, 1600)}[g]), rep.seed, gen_name=g, size=20,
                                nontrivial=lambda c, r: not c.labels & {"traits:1"})
        finally:
            shutil.rmtree(d, ignore_errors=True)


CHECKS = {"D12": check}
