"""D01..D06, D08..D11: method-by-method forwarding of derived traits, checked against the bare field value."""
import os
from vk import build, rust, report, choice
from vk.rust import Case
from . import enums

SUPFILES = os.path.join(build.VERIF, "rs")

# trait -> (mode, ops, ends, asserts)
T = {
    "Iterator": ("mut", ["it_op"], ["it_end", "it_end"]),
    "DoubleEndedIterator": ("mut", ["dei_op", "dei_op"], ["dei_end"]),
    "ExactSizeIterator": ("mut", ["esi_op"], ["esi_end"]),
    "FusedIterator": ("mut", [], [], "is_fused"),
    "TrustedLen": ("mut", [], [], "is_trusted"),
    "Extend": ("mut", ["ext_op", "exts_op"], []),
    "Future": ("pin", ["fut_op"], []),
    "Coroutine": ("pin", ["co_op", "co_ref_op"], []),
    "Read": ("mut", ["read_op"], []),
    "BufRead": ("mut", ["bufread_op"], []),
    "Write": ("mut", ["write_op"], []),
    "Seek": ("mut", ["seek_op"], []),
    "Debug": ("ref", ["debug_op"], []),
    "Display": ("ref", ["display_op"], []),
    "fmt::Binary": ("ref", ["binary_op"], []),
    "fmt::Octal": ("ref", ["octal_op"], []),
    "fmt::LowerHex": ("ref", ["lhex_op"], []),
    "fmt::UpperHex": ("ref", ["uhex_op"], []),
    "fmt::LowerExp": ("ref", ["lexp_op"], []),
    "fmt::UpperExp": ("ref", ["uexp_op"], []),
    "fmt::Pointer": ("ref", ["ptr_op"], []),
    "fmt::Write": ("mut", ["fmtw_op"], []),
    "Deref": ("ref", ["deref_op"], []),
    "DerefMut": ("mut", ["deref_mut_op"], []),
    "Index": ("ref", ["index_op", "index_range_op"], []),
    "IndexMut": ("mut", ["index_mut_op", "index_mut_range_op"], []),
    "AsRef": ("ref", ["asref_str_op", "asref_slice_op"], []),
    "AsMut": ("mut", ["asmut_slice_op", "asmut_tgt_op"], []),
    "RangeBounds": ("ref", ["range_op", "range_str_op"], []),
    "Fn": ("mut", ["fn_op", "fn_ref_op"], []),
    "FnMut": ("mut", ["fnmut_op", "fnmut_ref_op"], []),
    "FnOnce": ("mut", [], ["fnonce_end", "fnonce_ref_end", "fnonce_box_end"]),
}

CORE = list(T)
# these ask for more than the std types of the profiles have
PROBES_ONLY = {"range_str_op", "fn_ref_op", "fnmut_ref_op", "fnonce_ref_end", "fnonce_box_end", "co_ref_op"}
SEVERAL = PROBES_ONLY | {"index_range_op", "index_mut_range_op"}

# concrete std types per profile: (traits they all implement, [(type, expr)])
V = "vec![3u64, 1, 4, 1, 5, d.seed % 7, 9, 2, 6]"
ITER_U64 = [
    ("std::vec::IntoIter<u64>", V + ".into_iter()"),
    ("std::iter::Once<u64>", "std::iter::once(d.seed % 9)"),
    ("std::option::IntoIter<u64>", "(if d.seed % 2 == 0 { None } else { Some(8u64) }).into_iter()"),
    ("std::iter::Rev<std::vec::IntoIter<u64>>", V + ".into_iter().rev()"),
    ("std::array::IntoIter<u64, 5>", "[7u64, 8, 9, 10, d.seed % 5].into_iter()"),
    ("std::collections::vec_deque::IntoIter<u64>", "VecDeque::from(" + V + ").into_iter()"),
    ("std::iter::Empty<u64>", "std::iter::empty::<u64>()"),
]
ITER_MISC = [
    ("std::iter::Take<std::vec::IntoIter<u64>>", V + ".into_iter().take(4)"),
    ("std::iter::Map<std::vec::IntoIter<u64>, fn(u64) -> u64>", "{ let f: fn(u64) -> u64 = |x| { log(format!(\"map {x}\")); x * 2 }; " + V + ".into_iter().map(f) }"),
    ("std::iter::Chain<std::vec::IntoIter<u64>, std::ops::Range<u64>>", V + ".into_iter().chain(10..14)"),
    ("std::ops::Range<u64>", "(3..3 + d.seed % 9)"),
    ("std::ops::RangeInclusive<u64>", "(3..=3 + d.seed % 9)"),
    ("Box<dyn Iterator<Item = u64>>", "Box::new(4..9u64)"),
    ("std::iter::StepBy<std::ops::Range<u64>>", "(0..30u64).step_by(4)"),
    ("std::iter::Peekable<std::vec::IntoIter<u64>>", "{ let mut p = " + V + ".into_iter().peekable(); p.peek(); p }"),
]
ITER_CHARS = [
    ("std::str::Chars<'static>", '"héllo wörld".chars()'),
    ("std::vec::IntoIter<char>", "vec!['a', 'b', 'c'].into_iter()"),
    ("std::iter::Rev<std::str::Chars<'static>>", '"xyzß".chars().rev()'),
]
ITER_REFS = [
    ("std::slice::Iter<'static, u64>", "[1u64, 2, 3, 4, 5].iter()"),
    ("std::option::Iter<'static, u64>", "{ static O: Option<u64> = Some(3); O.iter() }"),
    ("std::iter::Rev<std::slice::Iter<'static, u64>>", "[1u64, 2, 3, 4, 5].iter().rev()"),
]
READS = [
    ("io::Cursor<Vec<u8>>", "io::Cursor::new(b\"hello\\nworld no\\nlines\".to_vec())"),
    ("&'static [u8]", "&b\"some\\nbytes \\xff n\"[..]"),
    ("io::BufReader<io::Cursor<Vec<u8>>>", "io::BufReader::with_capacity(3, io::Cursor::new(b\"hello\\nworld no\\nlines\".to_vec()))"),
    ("io::Empty", "io::empty()"),
    ("io::Chain<&'static [u8], &'static [u8]>", "(&b\"ab\\n\"[..]).chain(&b\"cdn\"[..])"),
]
WRITES = [
    ("Vec<u8>", "Vec::<u8>::new()"),
    ("io::Cursor<Vec<u8>>", "io::Cursor::new(vec![0u8; 4])"),
    ("io::Sink", "io::sink()"),
    ("io::Cursor<[u8; 7]>", "io::Cursor::new([0u8; 7])"),
    ("io::BufWriter<Vec<u8>>", "io::BufWriter::with_capacity(4, Vec::new())"),
]
SEEKS = [("io::Cursor<Vec<u8>>", "io::Cursor::new(vec![1u8; 20])"), ("io::Empty", "io::empty()")]
FMTS = [
    ("u64", "d.seed % 1000"), ("i32", "-7i32"), ("u8", "200u8"), ("i128", "-(1i128 << 90)"),
]
FMT_DD = FMTS + [("String", "\"héllo\".to_string()"), ("char", "'x'"), ("bool", "true"), ("f64", "1234.5678f64"),
                 ("&'static str", "\"stat\\nic\"")]
DEBUGS = FMT_DD + [("Vec<(u8, &'static str)>", "vec![(1, \"a\"), (2, \"b\")]"), ("()", "()"), ("Option<Box<u8>>", "Some(Box::new(3))"),
                   ("BTreeMap<u8, f32>", "BTreeMap::from([(1, 2.0)])")]
EXPS = [("u64", "d.seed % 1000"), ("f64", "1234.5678f64"), ("f32", "-0.00123f32"), ("i8", "-3i8")]
PTRS = [("*const u8", "32 as *const u8"), ("&'static u8", "&7u8"), ("fn(u8) -> u8", "gfun as fn(u8) -> u8")]
RANGES = [("std::ops::Range<u64>", "3..9"), ("std::ops::RangeFull", ".."), ("std::ops::RangeTo<u64>", "..7"),
          ("std::ops::RangeFrom<u64>", "4.."), ("std::ops::RangeInclusive<u64>", "4..=8"),
          ("(Bound<u64>, Bound<u64>)", "(Bound::Excluded(3), Bound::Unbounded)"), ("std::ops::RangeToInclusive<u64>", "..=5")]
DEREFS = [("Box<str>", "\"abc\".to_string().into_boxed_str()"), ("String", "\"Hello\".to_string()")]
FNS = [("fn(u64) -> u64", "{ fn g(x: u64) -> u64 { log(format!(\"g {x}\")); x + 1 } g as fn(u64) -> u64 }"),
       ("Box<dyn Fn(u64) -> u64>", "{ let k = d.seed % 5; Box::new(move |x| { log(format!(\"bf {x}\")); x * k }) }")]
FUTS = [
    ("std::future::Ready<u64>", "std::future::ready(d.seed % 10)"),
    ("std::pin::Pin<Box<dyn Future<Output = u64>>>", "Box::pin(selfref(d.seed % 4, 9))"),
]

# profile: weight, traits that may be picked, families of std types (traits -> list)
PROPS = {
    "D01": dict(traits=["Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "Extend"],
                std=[({"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator"}, ITER_U64, True),
                     ({"Iterator"}, ITER_U64 + ITER_MISC, True),
                     ({"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen"}, ITER_U64[:3] + ITER_U64[4:5] + [("PT<1>", "pt::<1>(d)"), ("PT<2>", "pt::<2>(d)"), ("PT<3>", "pt::<3>(d)")], False),
                     ({"Iterator", "DoubleEndedIterator", "FusedIterator"}, ITER_CHARS, False),
                     ({"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "TrustedLen"}, ITER_REFS, False)]),
    "D02": dict(traits=["Future", "Coroutine"], std=[({"Future"}, FUTS, True)]),
    "D03": dict(traits=["Read", "BufRead", "Write", "Seek"],
                std=[({"Read", "BufRead"}, READS, True), ({"Write"}, WRITES, True), ({"Seek"}, SEEKS, True),
                     ({"Read", "Seek", "BufRead"}, [READS[0], READS[2], READS[3]], True), ({"Write", "Seek"}, [WRITES[1], WRITES[3]], True)]),
    "D04": dict(traits=enums.FMT_ALL + ["fmt::Write"],
                std=[({"Debug", "Display", "fmt::Binary", "fmt::Octal", "fmt::LowerHex", "fmt::UpperHex"}, FMTS, True),
                     ({"Debug", "Display"}, FMT_DD, True), ({"Debug"}, DEBUGS, True),
                     ({"Debug", "fmt::LowerExp", "fmt::UpperExp", "Display"}, EXPS, True),
                     ({"fmt::Pointer", "Debug"}, PTRS, True), ({"fmt::Write"}, [("String", "String::new()")], True)]),
    "D06": dict(traits=["Deref", "DerefMut", "Index", "IndexMut", "AsRef", "AsMut", "RangeBounds", "Fn", "FnMut", "FnOnce"],
                std=[({"RangeBounds"}, RANGES, True), ({"Deref", "DerefMut"}, DEREFS, False), ({"FnOnce", "FnMut", "Fn"}, FNS, True)]),
}

NOEXTRA = {"fmt::Pointer"}


def emit(s, prop, traits, sh, clash_free=True):
    """Driver text for all variants of sh."""
    cl = enums.closure(traits)
    modes = {}
    asserts = []
    for t in cl:
        if t not in T:
            continue
        m, ops, ends = T[t][:3]
        modes.setdefault(m, ([], []))
        modes[m][0].extend(ops)
        modes[m][1].extend(ends)
        if len(T[t]) > 3:
            asserts.append(T[t][3])
    out = []
    if not all("P<" in ty for _, _, _, ty in sh.variants):
        modes = {m: tuple([x for x in y if x not in PROBES_ONLY] for y in oe) for m, oe in modes.items()}
    for (v, pre, expr, ty) in sh.variants:
        for m, (ops, ends) in modes.items():
            if not ops and not ends:
                continue
            fn = {"mut": "drive", "pin": "drive_pin", "ref": "drive_ref"}[m]
            tail = ", &[%s]" % ", ".join(ends) if m == "mut" else ""
            call = lambda val, t: "%s::<%s>(%s, d, &[%s]%s)" % (fn, t, val, ", ".join(ops), tail)
            bty = ty.replace("'x", "'_")
            out.append("    cx.same(\"%s %s\", |d| { %s %s }, |d| { %s %s });" % (
                v, m, pre, call("e::%s::%s(%s)" % ("Tt", v, expr), "e::Tt"),
                pre, call(expr, bty)))
        for a in asserts:
            out.append("    { let d = &mut D::new(1); %s let v = e::Tt::%s(%s); %s(&v); drop(v); }" % (pre, v, expr, a))
    return out


def case_src(sh, traits, body, seed, rounds, extra_mod="", dbg=()):
    txt = "use sup::*;\nuse std::{fmt, io, ops::*, future::Future, io::{Read, Write}, collections::*};\n%s" % extra_mod
    txt += "pub mod e {\nuse sup::*;\nuse std::{fmt, io, ops::*, future::Future, collections::*};\n"
    txt += "pub struct Hold<T>(T);\npub trait Has { type Ty; }\nimpl<T> Has for Hold<T> { type Ty = T; }\n"
    txt += sh.decl
    c = sh.concrete
    if "'_" in c:
        txt += "pub type Tt<'x> = %s;\n}\n" % c.replace("'_", "'x")
    else:
        txt += "pub type Tt = %s;\n}\n" % c
    txt += "pub fn run(cx: &mut Cx) {\n    cx.seed = %d;\n    cx.rounds = %d;\n%s\n}\n" % (seed, rounds, "\n".join(body))
    return txt


def make(prop, spec, rounds):
    def gen(s):
        traits = None
        std = None
        mix = True
        if spec["std"] and s.chance(1, 4):
            fam, lst, mix = s.pick(spec["std"])
            fam = sorted(fam)
            traits = s.subset(fam) or [s.pick(fam)]
            if any(t.startswith("PT<") for t, _ in lst):
                traits.append("TrustedLen")
            std = lst
        else:
            n = s.weighted([(4, 1), (3, 2), (2, 3), (1, len(spec["traits"]))])
            traits = s.shuffle(spec["traits"])[:n]
        traits = enums.with_explicit(traits)
        extras = []
        if std is None and s.chance(1, 3):
            pool = [t for t in spec.get("pool", CORE) if t not in traits and t not in NOEXTRA and t != "TrustedLen"]
            extras = [x for x in enums.with_explicit([s.pick(pool)]) if x not in traits]
        lst = enums.trait_list(s, traits + extras)
        attr = "#[%s(%s)]" % (s.pick(["auto_enums::enum_derive", "::auto_enums::enum_derive"]), lst)
        value = None
        sh = None
        if std is not None:
            stdl = std
            def value(k):
                if mix and s.chance(1, 4):
                    return "", "p::<%d>(d)" % k, "P<%d>" % k
                ty, expr = s.pick(stdl)
                return "", expr, ty
        sh = enums.shape(s, traits + extras, attr, value=value, kinds=("box", "mut", "pinbox") if std is None else ())
        body = emit(s, prop, traits, sh)
        seed = s.draw(1 << 20)
        c = Case(case_src(sh, traits, body, seed, rounds))
        c.labels = {"trait:" + t for t in enums.closure(traits)} | sh.labels | ({"with extra trait"} if extras else set()) | (
            {"std types"} if std is not None else set())
        c.meta["show"] = sh.decl + "\n".join(body[:2])
        c.ref_src = ref_src(c.src, sh)
        return c
    return gen


def ref_src(src, sh):
    return None


PRELUDE = "#![allow(warnings)]\n#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait)]\nextern crate sup;\nuse sup::*;\n"


def setup(rep, fx=None, ext=(), extern=(), features=build.ALL_FEATURES, sup_uses=()):
    """Builds the macro, the support crate and a Batch."""
    fxs = [fx] if isinstance(fx, str) else list(fx or [])
    m = build.cargo_build("-".join(["all"] + fxs), features, ext)
    d = build.scratch(rep.prop)
    fl = m.flags(use=extern, macro=False)
    cfgs = [x for f in fxs for x in ("--cfg", 'fx="%s"' % f)]
    rust.compile_rlib(os.path.join(SUPFILES, "sup.rs"), "sup", d, flags=fl + cfgs)
    flags = m.flags(use=extern) + ["--extern", "sup=" + os.path.join(d, "libsup.rlib"), "-L", d]
    return m, d, flags


def n_cases(rep, quick, thorough):
    n = quick if rep.tier == "quick" else thorough
    return max(1, int(n * rep.scale))


def check(rep):
    import shutil
    spec = PROPS[rep.prop]
    m, d, flags = setup(rep)
    batch = rust.Batch(d, flags, PRELUDE)
    rounds = 24 if rep.tier == "quick" else 96
    n = n_cases(rep, 400, 6000)
    rep.rule.append("Generated enums (shape, trait list, field types) whose every variant is driven with random operation sequences; a case is "
                    "non-trivial when it compiled and at least 20 events were observed on the held values.")
    try:
        report.differential(rep, batch, make(rep.prop, spec, rounds), n, rep.seed,
                            nontrivial=lambda c, r: r.stats.get("n_events", 0) >= 20)
    finally:
        shutil.rmtree(d, ignore_errors=True)
