"""C12: warnings. What rustc warns about in annotated code is compared with what it warns about in the same code without the attribute."""
import concurrent.futures as cf
import os, re, shutil
from collections import Counter
from vk import build, rust, report, choice
from vk.build import Infra
from . import enums, dprops, dprops3, d12, cprops

LINTS = ["warnings", "future_incompatible", "nonstandard_style", "rust_2018_compatibility", "rust_2018_idioms", "rust_2021_compatibility", "rust_2024_compatibility", "unused", "let_underscore", "keyword_idents", "refining_impl_trait",
         "unsafe_code", "missing_docs", "unreachable_pub", "single_use_lifetimes", "unused_qualifications", "unused_results", "missing_debug_implementations", "missing_copy_implementations", "elided_lifetimes_in_paths",
         "explicit_outlives_requirements", "trivial_casts", "trivial_numeric_casts", "unused_lifetimes", "variant_size_differences", "unused_import_braces", "unused_macro_rules", "meta_variable_misuse", "non_ascii_idents", "unit_bindings",
         "redundant_lifetimes", "redundant_imports", "unsafe_op_in_unsafe_fn", "absolute_paths_not_starting_with_crate", "ambiguous_negative_literals", "macro_use_extern_crate", "impl_trait_redundant_captures", "ffi_unwind_calls",
         "let_underscore_drop", "unnameable_types", "unused_extern_crates", "single_use_lifetimes", "private_interfaces", "private_bounds", "deprecated_in_future", "deprecated_safe", "non_camel_case_types"]
ALL = "#![warn(%s)]\n" % ", ".join(dict.fromkeys(LINTS))
FEAT = "#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait, stmt_expr_attributes, proc_macro_hygiene, let_chains, never_type, try_blocks, type_alias_impl_trait)]\n"


def run(d, name, head, lines, flags, edition):
    """Warnings of one-line cases: ({line: Counter((lint, column))}, {line: error})."""
    bad, live = {}, list(range(len(lines)))
    for rnd in range(12):
        nhead = head.count("\n")
        src = os.path.join(d, "%s_%d.rs" % (name, rnd))
        fn = os.path.basename(src)
        with open(src, "w") as f:
            f.write(head + "".join(lines[i] + "\n" for i in live))
        args = ["--edition", edition, "--crate-type", "rlib", "--crate-name", "m", "--emit=metadata", "-o", src + ".rmeta"] + list(flags)
        rc, diags, raw = build.run_rustc(args + [src], d, 300)
        warn, errs, lost = {}, {}, None
        for g in diags:
            lv = g["level"]
            if g["message"].startswith("aborting due to") or lv not in ("warning", "error") and not lv.startswith("error"):
                continue
            code = (g.get("code") or {}).get("code")
            at = set()
            for sp in g["spans"]:
                if sp["is_primary"]:
                    while sp.get("expansion") and not sp["file_name"].endswith(fn):
                        sp = sp["expansion"]["span"]
                    if sp["file_name"].endswith(fn) and nhead < sp["line_start"] <= nhead + len(live):
                        at.add((live[sp["line_start"] - nhead - 1], sp["column_start"]))
            if lv == "warning":
                for i, c in at:
                    warn.setdefault(i, Counter())[(code or g["message"][:60], c)] += 1
            else:
                lost = lost or g["message"]
                for i, c in at:
                    errs.setdefault(i, g["message"])
        if not rc:
            return warn, bad
        if not errs:
            if len(live) == 1:
                bad[live[0]] = lost or raw[-200:]
                return {}, bad
            # no place: halves
            h = len(live) // 2
            w, b = {}, dict(bad)
            for k, part in enumerate((live[:h], live[h:])):
                w1, b1 = run(d, "%s_%d%s" % (name, rnd, "lr"[k]), head, [lines[i] for i in part], flags, edition)
                w.update({part[i]: v for i, v in w1.items()})
                b.update({part[i]: v for i, v in b1.items()})
            return w, b
        bad.update(errs)
        live = [i for i in live if i not in bad]
        if not live:
            return {}, bad
    return {}, {i: "unsettled" for i in range(len(lines))}


class Pair:
    """auto: the annotated case, plain: the same without the attribute (one line each); exact: columns agree."""
    def __init__(self, auto, plain, exact, show, labels, both=False):
        self.auto, self.plain, self.exact, self.show, self.labels, self.both = auto, plain, exact, show, labels, both


def oneline(t):
    return re.sub(r"///([^\n]*)\n", r"/**\1 */ ", t).replace("\n", " ")


# warnings about the `impl Trait` that only the annotated side has; the attribute's own import
FREE = {"break_with_label_and_loop", "impl_trait_overcaptures", "impl_trait_redundant_captures", "unused_imports", "redundant_imports"}
# may disappear: redundant delimiters, and what rustc (silently by default) checks only in code that is not from a macro, as the value of `?` becomes
LOST = {"unused_parens", "unused_braces", "unused_results", "trivial_casts", "trivial_numeric_casts"}


def verdict(p, a, r):
    """a, r: warnings with and without the attribute."""
    if p.exact:
        more = Counter({k: n for k, n in (a - r).items() if not k[0].startswith("impl_trait_")})
        if any(k[0] == "dead_code" for k in r):
            # an unused enum: reported as a whole, or by variant once it has impls
            more = Counter({k: n for k, n in more.items() if k[0] != "dead_code"})
        if more:
            return "only with the attribute: %s" % sorted("%s at column %d" % k for k in more)
        if p.both:
            less = Counter({k: n for k, n in (r - a).items() if k[0] not in LOST})
            if less and any(k[0] == "dead_code" for k in a):
                less = Counter({k: n for k, n in less.items() if k[0] != "dead_code"})
            if less:
                return "no more with the attribute: %s" % sorted("%s at column %d" % k for k in less)
        return None
    more = {k[0] for k in a} - {k[0] for k in r} - FREE
    if more:
        return "only with the attribute: %s" % sorted(more)


# ---------------------------------------------------------------- enums
def enum(g):
    pool = dprops.CORE + ["Error"] + d12.group_traits(g) * 2 if g == "g1" else d12.group_traits(g)

    def gen(s, i):
        n = s.weighted([(3, 1), (3, 2), (2, 4), (1, 8)])
        traits = enums.with_explicit(list(dict.fromkeys(s.shuffle(list(pool))[:n])))
        traits = [t for t in traits if t != "TrustedLen"] or ["Iterator"]
        if g == "g1" and s.chance(1, 12):
            A = "#[auto_enums::enum_derive(Transpose)]"
            n = s.int(2, 4)
            decl = "%s #[derive(Debug, Clone)] /** d */ pub enum Tt<%s> { %s }" % (A, ", ".join("T%d" % k for k in range(n)), ", ".join(s.pick(["V%d(T%d)", "/** v */ V%d(T%d)"]) % (k, k) for k in range(n)))
            lab, first = {"trait:Transpose"}, "V0"
        else:
            A = "#[auto_enums::enum_derive(%s)]" % enums.trait_list(s, traits)
            sh = enums.shape(s, traits, A, name=s.pick(["Ee", "Ee", "ee", "E_x"]), max_variants=6)
            lab = {"trait:" + t for t in enums.closure(traits)}
            decl, first = oneline(sh.decl), sh.variants[0][0]
        pre = ""
        for t, w in (("#[deprecated] ", 8), ("#[doc(hidden)] ", 8), ("#[must_use] ", 8), ("#[non_exhaustive] ", 8), ("#[allow(missing_docs)] ", 6)):
            if s.chance(1, w):
                lab.add("attribute " + t.strip())
                pre += t
        i0 = decl.index(A) + len(A)
        decl = decl[:i0] + " " + pre + decl[i0:]
        # variants with attributes of their own
        if s.chance(1, 6):
            lab.add("deprecated variant")
            decl = re.sub(r"\{(\s*)((/\*\*.*?\*/\s*|#\[[^\]]*\]\s*)*%s\()" % re.escape(first), r"{\1#[deprecated] \2", decl, count=1)
        vis = s.pick(["pub ", "pub(crate) ", ""])
        decl = re.sub(r"\bpub(\((super|crate)\))? enum", vis + "enum", decl)
        where = s.pick(["%s", "%s", "pub fn f() { %s }", "mod inner { use super::*; %s }", "macro_rules! mk { ($($t:tt)*) => { $($t)* } } mk! { %s }"])
        lab.add("placed: " + where[:12])
        mod = "pub mod c%d { #![allow(unused_imports)] use sup::*; use crate::{Has, Hold}; use std::{fmt, io, ops::*, future::Future, collections::*}; %s }"
        auto = mod % (i, where % decl)
        plain = mod % (i, where % decl.replace(A, " " * len(A.encode())))
        return Pair(auto, plain, "mk!" not in where, decl, lab)
    return gen


EHEAD = "#![allow(internal_features)]\n" + FEAT + ALL + "//! Docs.\nextern crate sup;\n#[allow(missing_docs)] #[allow(missing_debug_implementations)] mod hh { pub struct Hold<T>(pub T); pub trait Has { type Ty; } impl<T> Has for Hold<T> { type Ty = T; } }\npub use hh::*;\n"


# ---------------------------------------------------------------- functions: the programs of C01-C06, C11 against the boxed ones
def program(s, i):
    p = s.pick(["C01", "C02", "C03", "C04", "C05", "C06", "C11"])
    c = cprops.GENS[p](False)(s)
    m = re.search(r"pub mod auto \{ use super::\*; (.*?)\}\npub mod refr \{ use super::\*; (.*?)\}\npub fn run\(", c.src, re.S)
    use = "use sup::*; #[allow(unused_imports)] use auto_enums::auto_enum; " if "use auto_enums::auto_enum" not in m.group(0) else "use sup::*; "
    auto, plain = ("pub mod c%d { #![allow(unused_macros, unused_macro_rules)] %s%s }" % (i, use, oneline(m.group(k))) for k in (1, 2))
    return Pair(auto, plain, False, m.group(1), {"program of " + p})


# ---------------------------------------------------------------- functions whose branches all have one type: the same text without the attribute
class Same:
    """Pieces of text come in pairs of the same length."""
    def __init__(self, s):
        self.s, self.n, self.labels = s, 0, set()

    def blank(self, t):
        return (t, " " * len(t))

    def cat(self, *xs):
        return ("".join(x if isinstance(x, str) else x[0] for x in xs), "".join(x if isinstance(x, str) else x[1] for x in xs))

    def leaf(self):
        s = self.s
        return s.pick(["lf::r(%d)" % s.draw(9), "lf::r(n + %d)" % s.draw(9), "lf::r((n + 1) * 2)", "lf::p(&n)", "lf::r(lf::q())", "LL.get(n)", "lf::r(if n > 1 { 2 } else { n })", "lf::r(match n { 0 => 1, _ => 2 })"])

    def value(self, d):
        """A branch."""
        s = self.s
        k = s.weighted([(6, "leaf"), (2, "braces"), (2, "parens"), (2, "block"), (1, "unsafe"), (1, "twice"), (1, "mark"), (1, "if"), (1, "match"), (1, "method"), (1, "try_")])
        x = self.leaf()
        self.labels.add("branch: " + k)
        v = "v%d" % s.draw(4)
        if k == "braces":
            return "{ %s }" % x
        if k == "parens":
            return "(%s)" % x
        if k == "block":
            return s.pick(["{ let %s = n; lf::r(%s) }" % (v, v), "{ let %s = n; %s }" % (v, x), "{ let mut %s = n; %s }" % (v, x), "{ lf::q(); %s }" % x, "{ lf::m(); %s }" % x, "{ n; %s }" % x, "{ (); %s }" % x])
        if k == "unsafe":
            return s.pick(["unsafe { lf::u() }", "unsafe { %s }" % x, "{ unsafe { %s } }" % x])
        if k == "twice":
            return s.pick(["{ { %s } }", "({ %s })", "{ (%s) }", "((%s))"]) % x
        if k == "mark" and self.mark:
            return s.pick(["marker!(%s)", "marker![%s]", "{ marker!(%s) }", "marker!((%s))", "marker!({ %s })"]) % x
        if k == "if":
            return s.pick(["{ let w = if n > 3 { %s } else { %s }; w }" % (x, self.leaf()), "{ if n > 3 { lf::q(); } %s }" % x, "{ if (n > 3) { lf::q(); } %s }" % x])
        if k == "match":
            return "{ let w = match n { 0 => %s, _ => { %s } }; w }" % (x, self.leaf())
        if k == "method":
            return s.pick(["(%s).same()", "%s.same()", "{ %s.same() }"]) % x
        return x

    def mark_ok(self, x):
        return x

    def branches(self, d):
        """A branching expression: pair."""
        s = self.s
        k = s.weighted([(4, "match"), (4, "if"), (2, "loop"), (1, "iflet"), (1, "labelled"), (1, "block")])
        self.labels.add("form: " + k)
        def b():
            r = s.draw(8)
            if d and r == 0:
                self.labels.add("nested")
                return self.cat(self.blank("#[nested] "), "{ ", self.branches(d - 1), " }")
            if r == 1:
                self.labels.add("diverging")
                return s.pick(["panic!()", "{ panic!() }", "unreachable!()", "std::unreachable!()", "{ lf::q(); panic!(\"{n}\") }", "return " + self.leaf() if self.ret else "panic!()", "{ return %s; }" % self.leaf() if self.ret else "{ panic!(); }",
                               "return (%s)" % self.leaf() if self.ret else "panic!()", "return { %s }" % self.leaf() if self.ret else "panic!()"])
            return self.value(d)
        def blk(x):
            t = x if isinstance(x, str) else x[0]
            if t.startswith("#[nested] { "):
                return self.cat("{ ", self.blank("#[nested] "), (t[10:], x[1][10:]), " }")
            return self.cat("{ ", x, " }")
        def val():
            return self.cat(self.value(d))
        if k == "match":
            n = s.int(2, 4)
            xs = [self.cat(val() if i < 2 else b()) for i in range(n)]
            # a block may do without the comma
            at = lambda: s.pick(["", "", "", "", "#[allow(unused)] ", "#[cfg(all())] ", "#[warn(unused)] ", "#[allow(deprecated)] "])
            arms = [self.cat(at(), "%s => " % (str(i) if i < n - 1 else s.pick(["_", "_", "m", "_m"])), x, "," if not x[0].endswith("}") or not x[0].startswith("{") or s.chance(1, 2) else "") for i, x in enumerate(xs)]
            return self.cat("match n { ", *[z for a in arms for z in (a, " ")], "}")
        if k in ("if", "iflet"):
            c = s.pick(["n == 1", "(n == 1)", "n > lf::q()", "matches!(n, 2)"]) if k == "if" else s.pick(["let Some(z) = lf::o(n)", "let Some(_) = (lf::o(n))"])
            t = self.cat("if %s " % c, blk(val()))
            for _ in range(s.draw(3)):
                t = self.cat(t, " else if n == 2 ", blk(b()))
            return self.cat(t, " else ", blk(val()))
        if k in ("loop", "labelled"):
            l = s.pick(["'a: ", "'b: "]) if k == "labelled" else ""
            br = "break %s" % l[:-2] if k == "labelled" and s.chance(2, 3) else "break"
            x = [self.cat(br + " ", val() if k == "loop" or br == "break" else self.leaf()) for _ in range(2)]
            return self.cat(l, "loop { if n == 3 { ", x[0], s.pick(["; }", " }"]), " if n == 4 { continue; } ", x[1], s.pick([";", ""]), " }")
        return self.cat(s.pick(["{ ", "unsafe { ", "{ lf::q(); ", "{ let u = n; "]), self.branches(d - 1) if d else self.cat("if n == 1 ", blk(val()), " else ", blk(val())), " }")

    def junk(self):
        """Statements with warnings of their own, mostly."""
        s = self.s
        return s.pick(["", "", "let a = n; ", "let mut b = n; ", "lf::q(); ", "lf::m(); ", "n; ", "let _c = (n); ", "if (n > 2) { lf::q(); } ", "let Dd = 1u32; ", "fn g() {} ", "let c = |x: u32| x; ", "let _ = lf::m(); ", "let c = || -> Result<u32, Er> { Ok(lf::e(1)? + lf::e(2)?) }; ",
                       "let e = lf::r(1); ", "#[allow(unused_variables)] let ha = 1; ", "#[allow(deprecated)] lf::old(); ", "#[allow(unused_must_use)] lf::m(); ", "#[allow(unused_must_use)] { lf::m(); } ", "#[warn(unused)] let hb = 1; ", "lf::q(); ;", "let hc; hc = 1; ", "let mut hd = 1; hd = 2; ", "loop { break; lf::q(); } ", "#[cfg(any())] lf::old(); ", "fn g2() { lf::old(); } ", "println!(\"{}\", (n)); ", "const lower: u32 = 1; ", "static mut Ss: u32 = 0; ", "'u: loop { break } ", "if let Some(w) = lf::o(n) { } ", "let (ia, ib) = (1, 2); ", "assert!((n > 1)); ", "let _ = { n }; ", "#[allow(unused)] let h = 1; ", "unsafe { lf::u() }; ", "lf::old(); ", "let f = n as u32; ", "struct lower; ", "use std::fmt::Debug; ", "let n = n; ", "{ } ", "let s = 'x: { if n > 9 { break 'x 1; } 2 }; ",
                       "for i in (0..2) { lf::q(); } ", "while (n > 200) { } ", "let k = async { lf::e(3)?; Ok::<u32, Er>(1) }; "])

    def stmts(self):
        s = self.s
        t = "".join(self.junk() for _ in range(s.draw(3)))
        if self.ret and s.chance(1, 3):
            self.labels.add("return")
            t += "if n == 7 { return %s; } " % self.value(0)
        return t


def same(s, i):
    b = Same(s)
    b.ret = b.mark = False
    k = s.weighted([(4, "fn"), (3, "let"), (2, "tail"), (1, "closure"), (3, "try"), (2, "method"), (1, "markers")])
    b.labels.add("as " + k)
    IMP, CON = "impl Iterator<Item = u32>", "Ll"
    b.mark = s.chance(1, 2)
    A = b.blank("#[auto_enum(Iterator)] ")
    own = s.pick(["", "", "", "", "", "#[allow(unused)] ", "#[allow(unused_variables, unused_mut)] ", "#[must_use] ", "#[inline] ", "#[allow(deprecated)] ", "/** d */ ", "#[allow(unused_parens, unused_braces)] "])
    if own:
        b.labels.add("own attribute")
    if k in ("fn", "method", "closure"):
        b.ret = True
    vis = s.pick(["pub ", "pub(crate) "])
    if k == "try":
        A = b.blank("#[auto_enum(Display)] ")
        xs = []
        for _ in range(s.int(2, 4)):
            e = "lf::e(n)"
            xs.append(s.pick(["let a = %s?; ", "%s?; ", "#[allow(unused_must_use)] lf::mu(n)?; ", "let a = #[allow(deprecated)] lf::olde()?; ", "if n == 3 { %s?; } ", "let _ = %s?; ", "lf::use_(%s?); ", "lf::use_((%s?)); ", "lf::use_({ %s? }); ", "let mut w = %s?; ", "(%s?); ", "let _w = (%s)?; ", "match %s? { 0 => (), _ => {} } ", "if (%s? > 3) { lf::q(); } ", "let d = { %s? }; ",
                              "lf::ee(n)?; ", "let z = lf::e(%s?)? as u32; ", "lf::mu(n)?; "]).replace("%s", e))
            xs.append(b.junk())
        end = s.pick(["Ok(n)", "(Ok(n))", "{ Ok(n) }", "return Ok(n)", "return Ok(n);", "Ok(lf::e(n)?)", "if n == 3 { Ok(1) } else { Ok(2) }", "Ok((n))", "if n == 9 { Err(Er)? } Ok(1)".replace("Err(Er)?", "lf::e(n)?;")])
        r = ("impl std::fmt::Display", "Er".ljust(len("impl std::fmt::Display")))
        f = b.cat(A, own, "%sfn f(n: u32) -> Result<u32, " % vis, r, "> { ", "".join(xs), end, " }")
    elif k == "markers":
        b.mark = True
        f = b.cat(A, own, "%sfn f(n: u32) -> " % vis, (IMP, CON.ljust(len(IMP))), " { ", b.stmts(), s.pick(["let c = |k: bool| if k { marker!(%s) } else { marker!(%s) }; ", "let c = |k: bool| { if (k) { return marker!((%s)); } marker!({ %s }) }; ", "let c = |k: bool| match k { true => marker!(%s), _ => marker! { %s } }; "]) % (b.leaf(), b.leaf()), "c(n == 1) }")
    else:
        st = b.stmts()
        x = b.branches(2)
        if k == "fn":
            f = b.cat(A, own, "%sfn f(n: u32) -> " % vis, (IMP, CON.ljust(len(IMP))), " { ", st, x, " }")
        elif k == "method":
            f = b.cat("/** d */ pub struct S; impl S { /** d */ ", A, own, "%sfn f(&self, n: u32) -> " % vis, (IMP, CON.ljust(len(IMP))), " { ", st, x, " } }")
        elif k == "let":
            f = b.cat("%sfn f(n: u32) -> u32 { " % vis, A, own if own[2:3] in "a" else "", s.pick(["let x = ", "let mut x = ", "let (x) = "]), x, "; ", b.junk(), "x.last().unwrap_or(1) }")
        elif k == "tail":
            f = b.cat("%sfn f(n: u32) -> " % vis, (IMP, CON.ljust(len(IMP))), " { ", st, A, x, " }")
        else:
            f = b.cat("%sfn f(n: u32) -> u32 { " % vis, A, "let c = |n: u32| { ", st, x, " }; ", "c(n).last().unwrap_or(1) }")
    mod = "pub mod c%d { #[allow(unused_imports)] use crate::lf::{self, auto_enum, Ll, Er, LL}; %s }"
    return Pair(mod % (i, f[0]), mod % (i, f[1]), True, f[0], b.labels, both=True)


SHEAD = FEAT + ALL + """//! Docs.
#![allow(stable_features)]
#[allow(unused_macros, unused_macro_rules)] macro_rules! marker { ($e:expr) => { $e } }
/** d */ pub mod lf { #![allow(missing_docs, missing_debug_implementations, missing_copy_implementations, unused_imports, unsafe_code, unreachable_pub)]
pub use auto_enums::auto_enum;
pub struct Ll(u32); impl Iterator for Ll { type Item = u32; fn next(&mut self) -> Option<u32> { None } } impl Ll { pub fn same(self) -> Ll { self } } pub struct Gg; impl Gg { pub fn get(&self, n: u32) -> Ll { Ll(n) } } pub static LL: Gg = Gg;
#[derive(Clone, Copy)] pub struct Er; impl std::fmt::Display for Er { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub fn r(n: u32) -> Ll { Ll(n) } pub fn p(n: &u32) -> Ll { Ll(*n) } pub fn q() -> u32 { 1 } #[must_use] pub fn m() -> u32 { 2 } pub unsafe fn u() -> Ll { Ll(1) } pub fn o(n: u32) -> Option<u32> { Some(n) } #[deprecated] pub fn old() {}
pub fn e(n: u32) -> Result<u32, Er> { if n > 5 { Err(Er) } else { Ok(n) } } pub fn ee(_: u32) -> Result<(), Er> { Ok(()) } #[deprecated] pub fn olde() -> Result<u32, Er> { Ok(1) } pub fn use_(_: u32) {} #[must_use] pub struct Mu; pub fn mu(_: u32) -> Result<Mu, Er> { Ok(Mu) } }
"""


def check(rep):
    rep.rule.append("Each case is one line of code compiled with every rustc lint on, with the attribute and without: enum definitions under enum_derive; programs of C01-C06 and C11 against the boxed reference (by lint name); "
                    "functions and enums whose unannotated text compiles as it stands (by lint and column, for functions in both directions). Non-trivial: distinct cases of which both versions compile.")
    rep.assumptions.append("lint attributes of level `forbid` and lints about `impl Trait` in the signature are left out; warnings about redundant delimiters may disappear")
    fails, inv, tot = [], 0, 0
    plan = [("g1", enum("g1"), EHEAD, (400, 6000)), ("same", same, SHEAD, (2000, 20000)), ("program", program, FEAT + ALL + "//! Docs.\n", (350, 6000)), ("g2", enum("g2"), EHEAD, (80, 1000)), ("g3", enum("g3"), EHEAD, (60, 1000)), ("g4", enum("g4"), EHEAD, (40, 500))]
    for name, gen, head, (q, th) in plan:
        if rep.replay and rep.replay.get("generator") != name:
            continue
        if name.startswith("g"):
            ext = [dprops3.EXTERNS[fx][0] for fx in d12.GROUPS[name]]
            m, d, flags = dprops.setup(rep, fx=d12.GROUPS[name], ext=[k for _, k in ext], extern=ext)
        else:
            m, d, flags = cprops.setup(rep, "default", build.DEFAULT_FEATURES)

        def judge(key, pairs, edition):
            """[(verdict, invalid)]"""
            w1, b1 = run(d, key + "a", head, [p.auto for p in pairs], flags, edition)
            w2, b2 = run(d, key + "r", head, [p.plain for p in pairs], flags, edition)
            out = []
            for i, p in enumerate(pairs):
                if i in b1 or i in b2:
                    out.append((None, b1.get(i) or b2.get(i)))
                else:
                    out.append((verdict(p, w1.get(i, Counter()), w2.get(i, Counter())), None))
            return out
        try:
            if rep.replay:
                p = gen(choice.Src(choices=rep.replay["choices"]), 0)
                v, x = judge("x", [p], rep.replay["edition"])[0]
                if v:
                    rep.violation(rep.replay["key"], v + "\n" + p.show, {k: rep.replay[k] for k in ("generator", "choices", "source", "edition")})
                return
            n = max(1, int((q if rep.tier == "quick" else th) * rep.scale))
            per = 50 if name != "same" else 125
            todo = []
            for i in range(n):
                s = choice.Src(seed="C12/%s/%d/%d" % (name, rep.seed, i))
                todo.append((gen(s, i), s.log))
            chunks = [todo[k:k + per] for k in range(0, n, per)]
            eds = ["2021" if name == "program" or k % 4 else "2024" if k % 8 else "2018" for k in range(len(chunks))]
            if name == "same":
                eds = [e if e != "2018" else "2021" for e in eds]
            with cf.ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda k: judge("j%d" % k, [p for p, _ in chunks[k]], eds[k]), range(len(chunks))))
            mine = []
            for ch, vs, ed in zip(chunks, outs, eds):
                for (p, log), (v, x) in zip(ch, vs):
                    tot += 1
                    if x:
                        inv += 1
                        if os.environ.get("VERIF_DEBUG"):
                            print("INVALID", name, ed, x, "\n  ", p.show)
                        continue
                    rep.evaluations += 1
                    rep.label(p.labels | {"edition " + ed})
                    rep.nontrivial.add(report.digest(p.auto.split("{", 1)[1]))
                    if len(rep.nontrivial) in (3, 500, 2500):
                        rep.sample({"source": p.show})
                    if v:
                        mine.append((log, p, v, ed))
            mine.sort(key=lambda x: len(x[0]))
            rep.extra["failing_cases"] = rep.extra.get("failing_cases", 0) + len(mine)
            for log, p, v, ed in mine[:2]:
                k = [0]

                def test_many(lists):
                    ps = [gen(choice.Src(choices=l), j) for j, l in enumerate(lists)]
                    k[0] += 1
                    return [bool(v) for v, _ in judge("s%d_%d" % (len(log), k[0]), ps, ed)]
                mm = choice.shrink(log, test_many, rounds=5)
                p2 = gen(choice.Src(choices=mm), 0)
                v2, _ = judge("f", [p2], ed)[0]
                if v2:
                    p, v, log = p2, v2, mm
                rep.violation("c12:%s:%s" % (name, report.digest(p.auto)), "%s\n%s" % (v, p.show), {"generator": name, "choices": log, "source": p.auto, "edition": ed})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    rep.extra["invalid_cases"] = inv
    if inv > tot // 2:
        raise Infra("%d of %d cases do not compile" % (inv, tot))


CHECKS = {"C12": check}
