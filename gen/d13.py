"""D13: pin-projecting enums are Unpin iff all fields are, and reject user-written Unpin and Drop implementations.
rustc is the judge: every case is one line of a file, compiled in several versions."""
import concurrent.futures as cf
import shutil
from vk import build, rust, report, choice
from vk.build import Infra
from . import enums, dprops, dprops3, d12

HEAD = ("#![allow(warnings)]\n#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait, negative_impls)]\nextern crate sup;\n"
        "pub mod l { use std::marker::PhantomPinned;\n"
        "pub struct Lu<T>(pub T); impl Unpin for Lu<u8> {}\n"      # a type of this crate that is Unpin for one argument only
        "pub struct Lp(PhantomPinned);\n"
        "pub struct Lw<T>(T, u8);\n"
        "pub trait Loc {} impl Loc for u8 {} impl<T> Loc for Lu<T> {} }\n"
        "pub struct Hold<T>(T);\npub trait Has { type Ty; }\nimpl<T> Has for Hold<T> { type Ty = T; }\n")
# types put for the parameters
ARGS = ["u8", "P<3>", "Box<P<1>>", "Lu<u16>", "Lu<u8>", "Lp", "&'static str", "std::marker::PhantomPinned", "[P<2>; 3]", "[u8; 2]", "fn(P<1>)", "Vec<P<1>>", "(Lu<u16>, u8)", "(u8, String)", "Lw<Lp>", "Lw<u8>",
        "Lw<Lu<u16>>", "&'static mut P<4>", "std::pin::Pin<&'static mut P<4>>", "Option<Lu<u16>>", "Option<u8>", "std::marker::PhantomData<P<1>>", "Box<dyn std::future::Future<Output = u8>>", "*const P<1>", "std::cell::UnsafeCell<u8>"]
# taking self by value moves out of the enum, which excludes Drop (E0509): nothing the property is about
BY_VALUE = {"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen", "Fn", "FnMut", "FnOnce", "rayon::ParallelIterator", "rayon::IndexedParallelIterator"}
PATHS = {"Drop": ["Drop", "std::ops::Drop", "::core::ops::Drop"], "Unpin": ["Unpin", "std::marker::Unpin", "::core::marker::Unpin"]}


class Pair:
    pass


def make(g):
    pins = [t for t in dprops.CORE + d12.group_traits(g) if t in enums.PINNING]
    others = [t for t in dprops.CORE + ["Error"] + d12.group_traits(g) if t not in enums.PINNING and t not in BY_VALUE]

    def gen(s, i):
        L = set()
        pin = s.pick(pins)
        more = [t for t in s.shuffle(pins)[:s.weighted([(5, 0), (2, 1), (1, 3)])] if t != pin]
        oth = enums.with_explicit(s.shuffle(others)[:s.weighted([(4, 1), (2, 2), (2, 3), (1, 6)])])
        oth = [t for t in oth if t not in enums.PINNING]
        bare = s.chance(1, 2)
        pinning = enums.with_explicit([pin] + more)
        both = pinning if bare else s.shuffle(list(dict.fromkeys(pinning + oth)))
        la, lo = enums.trait_list(s, both), enums.trait_list(s, oth)
        A = "#[auto_enums::enum_derive(@)]"
        sh = enums.shape(s, both + oth, A, max_variants=5)
        decl = sh.decl.replace("pub(super)", "pub")
        kind = s.weighted([(4, "drop"), (2, "all"), (2, "bounded"), (4, "special"), (2, "mixed"), (1, "negative"), (1, "local bound"), (1, "tuple bound")])
        what = "Drop" if kind == "drop" else "Unpin"
        L |= {"user impl: " + kind, "trait:" + pin} | ({"with other traits"} if not bare else set()) | sh.labels
        gp, ar, wh = [], [], list(sh.where)
        if sh.lt:
            gp.append("'a")
            ar.append("'a")
        special = kind in ("special", "mixed")
        for p, b in sh.params:
            if special and (kind == "special" or s.chance(1, 2)):
                x = s.pick(ARGS)
                ar.append("Hold<%s>" % x if b == ": Has" else x)
                wh = [w for w in wh if not w.startswith(p + ":")]
                continue
            gp.append(p + b)
            ar.append(p)
            if kind == "bounded" and s.chance(3, 4):
                wh.append("%s: Unpin" % p)
            if kind == "local bound":
                wh.append("%s: Loc" % p)
        if kind == "tuple bound" and sh.params:
            wh.append("(%s,): Unpin" % ", ".join(p for p, _ in sh.params))
        if sh.const:
            if special and s.chance(1, 2):
                ar.append(str(sh.const))
            else:
                gp.append("const N: u64")
                ar.append("N")
        txt = "impl%s %s%s for %sEe%s%s { %s }" % ("<%s>" % ", ".join(gp) if gp else "", "!" if kind == "negative" else "", s.pick(PATHS[what]), "@@", "<%s>" % ", ".join(ar) if ar else "",
                                                  " where " + ", ".join(wh) if wh else "", "fn drop(&mut self) {}" if kind == "drop" else "")
        where = s.weighted([(4, "%s %s"), (1, "%s mod inner { use crate::l::*; use sup::*; use crate::{Has, Hold}; %s }"), (1, "%s fn f() { %s }"), (1, "%s macro_rules! m { ($($t:tt)*) => { $($t)* } } m! { %s }"), (1, "!%s %s")])
        L.add("placed: " + {0: "beside"}.get(0) if where == "%s %s" else "placed elsewhere")
        txt = txt.replace("@@", "super::" if "mod inner" in where else "")
        join = (lambda d: "%s %s" % (txt, d)) if where[0] == "!" else (lambda d: where % (d, txt))
        use = "use crate::l::*; use sup::*; use crate::{Has, Hold}; use std::{fmt, io, ops::*, future::Future, collections::*};"
        mod = lambda name, body: "pub mod %s { %s %s }" % (name, use, body)
        withlist = lambda l: decl.replace("@", l)
        plain = decl.replace(A, "")
        # instantiations whose Unpin is compared with that of the plain enum
        inst = []
        for _ in range(4):
            a = (["'static"] if sh.lt else []) + [("Hold<%s>" if b == ": Has" else "%s") % s.pick(ARGS) for _, b in sh.params] + ([str(s.draw(4))] if sh.const else [])
            t = "Ee%s" % ("<%s>" % ", ".join(a) if a else "")
            if t not in inst:
                inst.append(t)
        # inner modules name the enum by its concrete visibility: they stay siblings
        asserts = lambda m: "".join("const _: () = assert!(sup::hast!(%s::%s, Unpin) == sup::hast!(r::%s, Unpin));" % (m, t, t) for t in inst)
        p = Pair()
        name = "c%d" % i
        p.bad = mod(name, join(withlist(la)))
        p.good = mod(name, "%s %s %s %s" % (mod("u", join(withlist(lo))), mod("q", withlist(la)), mod("r", plain), asserts("q")))
        p.auto = mod(name, "%s %s %s" % (mod("q", withlist(lo)), mod("r", plain), asserts("q")))
        p.plain = mod(name, "%s %s %s %s" % (mod("u", join(plain)), mod("q", plain), mod("r", plain), asserts("q")))
        for k in ("bad", "good", "auto", "plain"):
            setattr(p, k, " ".join(x for x in strip_comments(getattr(p, k)).split("\n")))
        p.labels = L
        return p
    return gen


def strip_comments(t):
    import re
    return re.sub(r"///([^\n]*)\n", r"/**\1 */ \n", t)


def judge(d, name, flags, pairs):
    """[(verdict or None, invalid reason or None)]"""
    def run(part):
        e, t = rust.line_errors(d, "%s_%s" % (name, part), HEAD, [getattr(p, part) for p in pairs], flags)
        return e, t
    pl, tp = run("plain")
    ok = [i for i in range(len(pairs)) if i not in pl]
    if tp or -1 in pl:
        if len(pairs) == 1:
            return [(None, tp or pl[-1][0][1])]
        h = len(pairs) // 2
        return judge(d, name + "l", flags, pairs[:h]) + judge(d, name + "r", flags, pairs[h:])
    out = [(None, pl[i][0][1]) if i in pl else (None, None) for i in range(len(pairs))]
    live = [pairs[i] for i in ok]
    if not live:
        return out

    def settle(part, idx, depth=0):
        """{index: errors} of a version. Errors of one line can keep the compiler from looking at others."""
        e, t = rust.line_errors(d, "%s_%s%d_%d" % (name, part, depth, idx[0]), HEAD, [getattr(pairs[i], part) for i in idx], flags)
        if t or -1 in e:
            if len(idx) == 1:
                return {idx[0]: e.get(-1, []) + [(None, t or "no place")]}
            h = len(idx) // 2
            r = settle(part, idx[:h], depth + 1)
            r.update(settle(part, idx[h:], depth + 1))
            return r
        res = {idx[k]: v for k, v in e.items()}
        rest = [i for i in idx if i not in res]
        if res and rest:
            res.update(settle(part, rest, depth + 1))
        return res
    good, auto, bad = settle("good", ok), settle("auto", ok), settle("bad", ok)
    for i in ok:
        if i in good:
            out[i] = ("the enum without a pinning trait (u) with the user's implementation, or the pinning enum (q) without it, is rejected or differs from the plain enum (r) in Unpin: %s" % good[i][0][1], None)
        elif i in auto:
            out[i] = ("the enum without pinning traits differs from the plain one: %s" % auto[i][0][1], None)
        elif i not in bad:
            out[i] = ("the user's implementation is accepted beside a pinning trait", None)
        elif not any(c in ("E0119", "E0751") for c, _ in bad[i]):
            out[i] = ("the user's implementation is rejected, but for another reason: %s" % bad[i][0][1], None)
    return out


def check(rep):
    rep.rule.append("Random enums under enum_derive with a pinning trait (and others): Unpin of random instantiations compared with the same enum without the attribute; a random user-written Unpin or Drop implementation must be rejected as conflicting, "
                    "and accepted when the pinning traits are left out of the list. Non-trivial: every distinct such triple whose plain version compiles.")
    rep.assumptions.append("enums that derive a trait taking self by value cannot implement Drop for another reason (E0509) and are left out of the Drop part")
    fails, inv, tot = [], 0, 0
    for g, (q, th) in {"g1": (500, 6000), "g2": (250, 3000), "g3": (250, 3000)}.items():
        if rep.replay and rep.replay.get("generator") != g:
            continue
        ext = [dprops3.EXTERNS[fx][0] for fx in d12.GROUPS[g]]
        m, d, flags = dprops.setup(rep, fx=d12.GROUPS[g], ext=[k for _, k in ext], extern=ext)
        gen = make(g)
        try:
            if rep.replay:
                p = gen(choice.Src(choices=rep.replay["choices"]), 0)
                v, x = judge(d, "x", flags, [p])[0]
                if v:
                    rep.violation(rep.replay["key"], v + "\n" + p.bad, {"generator": g, "choices": rep.replay["choices"], "source": p.bad})
                return
            n = max(1, int((q if rep.tier == "quick" else th) * rep.scale))
            per = 42
            todo = []
            for i in range(n):
                s = choice.Src(seed="D13/%s/%d/%d" % (g, rep.seed, i))
                todo.append((gen(s, i), s.log))
            chunks = [todo[k:k + per] for k in range(0, n, per)]
            with cf.ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda k: judge(d, "j%d" % k, flags, [p for p, _ in chunks[k]]), range(len(chunks))))
            mine = []
            for ch, vs in zip(chunks, outs):
                for (p, log), (v, x) in zip(ch, vs):
                    tot += 1
                    if x:
                        inv += 1
                        rep.label(["plain version does not compile"])
                        import os
                        if os.environ.get("VERIF_DEBUG"):
                            print("INVALID", x, "\n  ", p.plain)
                        continue
                    rep.evaluations += 1
                    rep.label(p.labels)
                    rep.nontrivial.add(report.digest(p.bad.split("{", 1)[1]))
                    if len(rep.nontrivial) in (2, 100):
                        rep.sample({"rejected": p.bad})
                    if v:
                        mine.append((log, p, v))
            mine.sort(key=lambda x: len(x[0]))
            rep.extra["failing_cases"] = rep.extra.get("failing_cases", 0) + len(mine)
            for log, p, v in mine[:2]:
                k = [0]

                def test_many(lists):
                    ps = [gen(choice.Src(choices=l), j) for j, l in enumerate(lists)]
                    k[0] += 1
                    return [bool(v) for v, _ in judge(d, "s%d_%d" % (len(log), k[0]), flags, ps)]
                mm = choice.shrink(log, test_many, rounds=6)
                p2 = gen(choice.Src(choices=mm), 0)
                v2, _ = judge(d, "f", flags, [p2])[0]
                if v2:
                    p, v, log = p2, v2, mm
                rep.violation("d13:%s:%s" % (g, report.digest(p.bad)), "%s\n%s\nversions: %s" % (v, p.bad, p.good), {"generator": g, "choices": log, "source": p.bad})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rep.extra["invalid_cases"] = inv
    if inv > tot // 20:
        raise Infra("%d of %d cases are no valid enums" % (inv, tot))


CHECKS = {"D13": check}
