"""C08: misuse is a compile error, and no input makes the attributes panic. rustc itself is the judge of each line."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess
from vk import build, report, choice
from vk.build import Infra
from .syntax import Syn, TOKS
from .c09 import Gen as ExpandGen, FNATTRS

HEAD = ("#![feature(stmt_expr_attributes, proc_macro_hygiene, custom_inner_attributes, try_blocks, never_type, let_chains, associated_const_equality, async_closure, raw_ref_op, c_str_literals)]\n"
        "#![allow(warnings)]\n"
        "pub mod p { pub use auto_enums::{auto_enum, enum_derive}; pub use std::fmt::{self, Debug}; pub fn d<T: Debug>(_: T) {} pub fn o() -> Result<u8, u8> { Ok(1) } pub fn q() -> Result<u8, String> { Ok(1) } }\n")
NHEAD = HEAD.count("\n")
VALS = ["1u8", "\"s\"", "2.5f32", "'c'", "()", "[1u8, 2]", "Some(3u64)", "String::new()", "vec![1i8]", "(1u8, 'x')", "{ d(1u8); 2i64 }", "(3u16)", "if c { 1usize } else { 2 }", "n + 1"]
DIVERGE = ["panic!()", "unreachable!()", "std::unreachable!(\"x\")", "core::panic!(\"{}\", n)", "{ d(n); panic!() }", "(panic!())", "match n { 0 => panic!(), _ => unreachable!() }", "unsafe { unreachable!() }"]


class Mis:
    """Draws one (misused, well-formed) pair of texts that differ in the misuse only."""
    def __init__(self, s):
        self.s = s
        self.labels = set()
        self.k = 0
        self.own = True      # the attribute itself has to complain

    # Every text is written once with holes: self.bad chooses which side is being written.
    def case(self, i):
        kinds = [(3, "few"), (2, "else_"), (1, "uninit"), (1, "empty"), (3, "item"), (3, "note"), (2, "rec"), (3, "args_"), (1, "dup"), (2, "name"), (1, "marg"), (4, "enum"), (2, "eargs")]
        kind = self.s.weighted(kinds)
        self.labels.add("misuse: " + kind)
        b, g = getattr(self, kind)()
        return [re.sub(r"\s*\n\s*", " ", "mod c%d { use crate::p::*; %s }" % (i, t)) for t in (b, g)]

    def vals(self, n):
        return self.s.shuffle(VALS)[:n]

    def args(self):
        return self.s.pick(["Debug", "Debug,", "fmt::Debug", "Debug, marker = mk", "marker = mk, Debug", "marker = mk, Debug,", "Debug, marker = marker"])

    def pre(self, mk=True):
        """Statements that matter to no one."""
        s = self.s
        out = []
        for _ in range(s.draw(3)):
            out.append(s.pick(["d(n);", "let _k = |x: u8| x;", "if c { d('x'); }", "for _ in 0..2 { if c { continue; } d(1u8); }", "let _a = match n { 0 => 1u8, _ => 2 };", "{ d(n); }", ";", "{ fn g() -> u8 { return 1; } }",
                               "let _l = loop { break 3u8; };", "println!(\"{}\", n);"]))
        return " ".join(out)

    # ------------------------------------------------------------ positions
    def wrap(self, be):
        """A tail expression that leads to be."""
        s = self.s
        for _ in range(s.draw(4)):
            k = s.draw(4)
            be = ["{ %s %s }", "unsafe { %s %s }", "(%s%s)", "{ %s {%s} }"][k] % ("" if k == 2 else self.pre(), be)
        return be

    def place(self, bes, args=None, raw=False):
        """bes: texts of the same position under one attribute. Returns the texts of whole functions."""
        s = self.s
        a = args or [self.args()] * len(bes)
        k = s.weighted([(4, "fn"), (2, "let"), (1, "letout"), (1, "expr"), (2, "closure"), (1, "method"), (1, "inner"), (1, "dummy"), (1, "async")])
        self.labels.add("at: " + k)
        pre, w = self.pre(), self.wrap("@@")
        q = s.pick(["", "pub ", "pub(crate) "])
        at = "".join(s.pick(["#[inline] ", "/** doc */ ", "#[allow(unused)] "]) for _ in range(s.draw(2)))
        t = {
            "fn": "%s#[auto_enum(AA)] %sfn f(c: bool, n: u8) -> impl Debug { %s WW }" % (at, q, pre),
            "async": "%s#[auto_enum(AA)] %sasync fn f(c: bool, n: u8) -> impl Debug { %s WW }" % (at, q, pre),
            "method": "struct S; impl S { %s#[auto_enum(AA)] %sfn f(&self, c: bool, n: u8) -> impl Debug + use<> { %s WW } }" % (at, q, pre),
            "let": "fn f(c: bool, n: u8) { %s #[auto_enum(AA)] let _x = WW; }" % pre,
            "letout": "#[auto_enum(Debug)] fn f(c: bool, n: u8) -> impl Debug { %s #[auto_enum(AA)] let _x = WW; if c { return 1u8; } %s return 'z'; }" % (pre, self.pre()),
            "dummy": "#[auto_enum] fn f(c: bool, n: u8) { %s #[auto_enum(AA)] let _x = WW; d(1); }" % pre,
            "expr": "#[auto_enum] fn f(c: bool, n: u8) { d(#[auto_enum(AA)] WW) }",
            "closure": "fn f() { #[auto_enum(AA)] let _x = |c: bool, n: u8| WW; }",
            "inner": "#[auto_enum(Debug)] fn f(c: bool, n: u8) -> impl Debug { match n { 5 => { %s #[auto_enum(AA)] let x = WW; x } 6 => 1u16, _ => \"t\" } }" % pre,
        }[k]
        if raw:
            pass
        elif k == "letout" or k == "inner":
            a = [x.replace("marker = marker", "marker = other") for x in a]
        out = []
        for x, y in zip(bes, a):
            y = y.replace(", marker = marker", "") if not raw and k in ("expr", "dummy") else y
            out.append(t.replace("WW", w.replace("@@", x)).replace("AA", y))
        self.at = k
        return out

    def never(self, e):
        return self.s.pick([e, e, "#[never]"]) if False else e

    def branching(self, bad, good, other=None):
        """A pair of branching expressions that differ in the branch values given (None: diverges)."""
        s = self.s
        k = s.pick(["match", "if", "iflet", "loop"])
        self.labels.add("branches: " + k)
        lab = s.pick(["", "'l: "])
        nl = s.draw(2)
        stm = self.pre()
        def text(vs):
            if k == "match":
                return "match n { %s }" % " ".join("%s => %s%s" % (("%d" % i) if i < len(vs) - 1 else "_", v, ",") for i, v in enumerate(vs))
            if k == "loop":
                return "%sloop { %s %s }" % (lab, stm, " ".join("if n == %d { %s; }" % (i, v if v in DIVERGE else "break %s%s" % ("'l " if lab and nl else "", v)) for i, v in enumerate(vs)))
            cond = (lambda i: "n == %d" % i) if k == "if" else (lambda i: "let %d = n" % i)
            out = "if %s { %s }" % (cond(0), vs[0])
            for i, v in enumerate(vs[1:-1]):
                out += " else if %s { %s }" % (cond(i + 1), v)
            return out + (" else { %s }" % vs[-1] if len(vs) > 1 else " else { panic!() }")
        return [text(bad), text(good)]

    # ------------------------------------------------------------ misuses of auto_enum
    def few(self):
        """Fewer than two branches or markers."""
        s = self.s
        how = s.weighted([(4, "branch"), (1, "tail"), (1, "mark"), (1, "ret"), (1, "semi"), (1, "try"), (1, "mac"), (1, "nevers")])
        self.labels.add("few: " + how)
        v, w = self.vals(2)
        mk = "mk"
        if how == "branch":
            n = s.int(1, 4)
            div = [s.pick(DIVERGE) for _ in range(n)]
            one = s.draw(3) > 0
            bad = list(div) + ([v] if one else [s.pick(DIVERGE)])
            good = list(div) + [v]
            bad, good = s.shuffle(list(zip(bad, good))), None
            good = [g for _, g in bad] + [w]
            bad = [b for b, _ in bad] + [s.pick(DIVERGE)]
            if one and s.chance(1, 3):
                # the branches of another attribute inside are not branches of this one
                self.labels.add("few: another attribute inside")
                x, y = self.vals(2)
                inner = "{ #[auto_enum(Debug)] let y = match n { 0 => %s, 1 => unreachable!(), _ => %s }; d(y); %%s }" % (x, y)
                i = bad.index(v)
                bad[i], good[i] = inner % bad[i], inner % good[i]
            return self.place(self.branching(bad, good))
        if how == "tail":
            v = "1u8" if v.startswith("if ") else v
            return self.place([v, "match n { 0 => %s, _ => %s }" % (v, w)])
        if how == "mark":
            return self.place(["{ let x = mk!(%s); x }" % v, "{ let mut x = Box::new(mk!(%s)); if c { *x = mk!(%s); } x }" % (v, w)], ["Debug, marker = mk"] * 2)
        if how == "ret":
            t = "#[auto_enum(Debug)] fn f(c: bool, n: u8) -> impl Debug { %s %s return %s; }"
            p = self.pre()
            return [t % (p, "", v), t % (p, "if c { return %s; }" % w, v)]
        if how == "semi":
            p = self.pre()
            t = "fn f(c: bool, n: u8) { %s #[auto_enum(Debug)] match n { 0 => d(%s), _ => d(%s) }; }"
            return [t % (p, v, w), t % (p, "{ let mut a = vec![]; a.push(marker!(%s)); a.push(marker!(%s)); }" % (v, w), w)]
        if how == "try":
            t = "#[auto_enum(Debug)] fn f(c: bool, n: u8) -> Result<u8, impl Debug> { %s let a = o()?; %s Ok(a) }"
            p = self.pre()
            return [t % (p, ""), t % (p, "q()?;")]
        if how == "nevers":
            return self.place(["match n { #[never] 0 => std::process::exit(1), 1 => %s, #[never] _ => loop {} }" % v, "match n { #[never] 0 => std::process::exit(1), 1 => %s, _ => %s }" % (v, w)])
        t = "fn f(c: bool, n: u8) { %s #[auto_enum(Debug)] %s }"
        p = self.pre()
        return [t % (p, s.pick(["println!(\"{}\", n);", "assert!(c);", "println! { \"{}\", n }", "std::println![\"x\"];"])), t % (p, "{ let mut a = vec![]; a.push(marker!(%s)); a.push(marker!(%s)); };" % (v, w))]

    def els(self, vs):
        s = self.s
        k = s.draw(2)
        c = lambda i: "n == %d" % i if k else "let %d = n" % i
        out = "if %s { %s }" % (c(0), vs[0])
        for i, v in enumerate(vs[1:]):
            out += " else if %s { %s }" % (c(i + 1), v)
        return out, out + " else { panic!() }"

    def else_(self):
        s = self.s
        vs = self.vals(s.int(2, 4))
        b, g = self.els(vs)
        k = s.weighted([(3, "tail"), (2, "arm"), (1, "nlet"), (1, "nblock"), (1, "recv")])
        self.labels.add("else: " + k)
        if k == "arm":
            t = "match n { #[nested] 7 => %s, 8 => 'q', _ => 3i8 }"
        elif k == "nlet":
            t = "match n { 7 => { #[nested] let x = %s; x } 8 => 'q', _ => 3i8 }"
        elif k == "nblock":
            t = "if n == 7 { #[nested] { %s } } else { 3i8 }"
        elif k == "recv":
            t = "(%s).clone()"
        else:
            t = "%s"
        if k == "recv":
            b, g = self.els(["1u8", "2u8", "3u8"][:len(vs)])
            return self.place([t % b, t % g], ["Debug, Clone"] * 2)
        return self.place([t % b, t % g])

    def uninit(self):
        t = self.s.pick(["let x: u8%s;", "let x%s;", "let mut x%s;", "let _x: _%s;"])
        v, w = self.vals(2)
        g = "let x = match n { 0 => %s, _ => %s };" % (v, w)
        o = self.s.pick(["fn f(c: bool, n: u8) { %s #[auto_enum(Debug)] %s d(1); }", "#[auto_enum] fn f(c: bool, n: u8) { %s #[auto_enum(Debug)] %s d(1); }",
                         "#[auto_enum(Debug)] fn f(c: bool, n: u8) -> impl Debug { %s #[auto_enum(Debug)] %s if c { 1u8 } else { 'c' } }"])
        p = self.pre()
        return [o % (p, (t % "") + self.s.pick(["", " x = 1u8;", " if c { x = 2; }"])), o % (p, g)]

    def empty(self):
        v, w = self.vals(2)
        h = self.s.pick(["fn f(c: bool, n: u8) %s", "pub fn f<T>(c: bool, n: u8, t: T) %s", "async fn f(c: bool, n: u8) %s", "unsafe extern \"C\" fn f(c: bool, n: u8) %s", "const fn f(c: bool, n: u8) %s"])
        o = self.s.pick(["%s", "struct S; impl S { %s }", "fn out() { %s }"])
        a = self.s.pick(["Debug", "Debug, Clone,", "marker = mk, Debug"])
        b = o % ("#[auto_enum(%s)] %s" % (a, h % self.s.pick(["{}", "{ }", "{ /* nothing */ }", "-> () {}"])))
        h = h.replace("extern \"C\" ", "").replace("const ", "").replace("Debug, Clone", "Debug")
        return [b, o % ("#[auto_enum(Debug)] %s" % (h % ("-> impl Debug { match n { 0 => %s, _ => %s } }" % (v, w))))]

    def item(self):
        s = self.s
        it = s.pick(["struct S;", "struct S { a: u8 }", "struct S<T>(T);", "enum E { A, B }", "enum E<A, B> { A(A), B(B) }", "union U { a: u8, b: u16 }", "impl Q { fn f() {} }", "trait T { fn f() -> u8 { 1 } }", "mod m { pub fn f() {} }",
                     "const C: u8 = 1;", "const _: () = {};", "static ST: u8 = 1;", "static mut ST: u8 = 1;", "use std::fmt as ff;", "type A = u8;", "extern \"C\" { fn f(); }", "extern crate std as st;", "macro_rules! mm { () => {} }", "unsafe impl Send for Q2 {}"])
        a = s.pick(["", "()", "(Debug)", "(Debug, Clone,)", "(marker = mk)", "(Iterator)"])
        at = "".join(s.pick(["/** doc */", "#[doc = \"d\"]", "#[cfg_attr(all(), allow(unused))]", "#[allow(unused)]"]) + " " for _ in range(s.draw(2)))
        w = s.weighted([(4, "%s"), (2, "fn out() { %s }"), (1, "trait"), (1, "impl")])
        if w in ("trait", "impl"):
            it = s.pick(["const C: u8 = 1;", "fn f(&self);" if w == "trait" else "const D: &'static str = \"\";", "type A;" if w == "trait" else "const E: [u8; 1] = [1];"])
            w = "trait T { %s }" if w == "trait" else "struct S; impl S { %s }"
        self.labels.add("item: " + it.split("(")[0].split("{")[0].split()[0])
        w = "struct Q; struct Q2; " + w
        q = s.pick(["#[auto_enum%s]", "#[crate::p::auto_enum%s]", "#[::auto_enums::auto_enum%s]"]) % a
        return [w % ("%s %s %s" % (at, q, it)), w % ("%s %s" % (at, it))]

    def noted(self, note, good_note, val=None):
        """One annotation at a position the attribute handles; the twin has the good one."""
        s = self.s
        v, w = self.vals(2)
        k = s.weighted([(3, "arm"), (2, "expr"), (2, "let"), (1, "deep"), (1, "marker"), (1, "stmt"), (1, "cond"), (1, "ret")])
        self.labels.add("note: " + k)
        never = "never" in note or "rec" in note and s.draw(2)
        d = s.pick(["std::process::exit(2)", "panic!()"]) if never else s.pick(["if c { 1i8 } else { 'k' }", "match n { 3 => 1u8, _ => \"u\" }", "loop { break 1i128 }"])
        if not never and good_note == "" and k in ("arm", "marker"):
            d = "2i8"
        if not never and k in ("expr", "cond", "stmt", "deep", "ret"):
            d = "1i32"
        r = {"arm": "match n { 0 => %s, NN 1 => %s, _ => %s }" % (v, d, w),
             "expr": "match n { 0 => { d((NN %s)); %s } _ => %s }" % (d, v, w),
             "let": "match n { 0 => { NN let _x = %s; %s } _ => %s }" % ("1u8" if not never else d, v, w),
             "deep": "match n { 0 => { if c { for _ in 0..2 { let _f = |x: u8| { d((NN %s)); x }; } } %s } _ => %s }" % (d, v, w),
             "marker": "match n { 0 => { let _y = Some(()); mk!(match n { NN 1 => %s, _ => 3i8 }) } 1 => %s, _ => %s }" % ("panic!()" if never else "2i8", v, w),
             "stmt": "match n { 0 => { NN d(%s); %s } _ => %s }" % (v, v, w),
             "cond": "if n == (NN %s) { %s } else { %s }" % ("1u8" if not never else "panic!()", v, w),
             "ret": "match n { 0 => %s, 4 => { let _z = [(NN %s)]; %s } _ => %s }" % (v, d, v, w)}[k]
        a = ["Debug, marker = mk"] * 2
        if k == "let" and good_note == "#[nested]":
            good_note = ""
        if k in ("marker", "cond", "ret", "deep", "expr", "stmt") and good_note == "#[nested]":
            good_note = ""
        if k == "arm" and good_note == "#[nested]" and "loop" in d:
            pass
        return self.place([r.replace("NN", note), r.replace("NN", good_note)], a)

    def note(self):
        s = self.s
        n = s.pick(["never", "nested"])
        f = s.pick(["(x)", "()", " = 1", "(\"a\", b)", "[]", "{x}", "(foo::bar = 3)", " = \"s\""])
        self.labels.add("#[%s] with arguments" % n)
        return self.noted("#[%s%s]" % (n, f), "#[%s]" % n)

    def rec(self):
        f = self.s.pick(["", "", "", "(x)", " = 1", "()"])
        return self.noted("#[rec%s]" % f, "")

    BADARGS = ["1", "\"Debug\"", "=", "Debug = 1", "Debug(x)", "Debug Debug", "Debug;", ",", ",Debug", "Debug,,", "Debug,,Clone", "Debug, ,", "'a", "!Debug", "&Debug", "Debug + Clone", "Debug | Clone", "#Debug", "?Debug", "Debug::", "::", "::Debug::",
               "fmt::Debug::,", "Debug => x", "(Debug)", "[Debug]", "{Debug}", "Debug{}", "Debug[1]", "-", "..", "Debug..", "Debug,1", "Debug, \"Clone\"", "Debug: Clone", "Debug, =>", "fmt.Debug", "fmt::1", "dyn Debug", "impl Debug", "fn()", "_", "*", "$", "Debug, $x", "if", "let x", "Debug!", "Debug?", "Debug@", "true", "1.5", "b'c'", "for<'a> Debug"]
    BADMARK = ["marker", "marker =", "marker = ,", "marker = \"x\"", "marker = 1", "marker = a::b", "marker = a b", "marker == a", "marker => a", "marker: a", "marker(a)", "marker{a}", "marker[a]", "marker = (a)", "marker = a = b", "marker = 'a", "marker = if", "marker = self", "marker = ::a",
               "marker = _", "marker = a!", "marker = {a}", "= a", "Marker = a", "marker_ = a", "marke = a", "r#marker = a", "marker +=  a", "x::marker = a", "name = a"]

    def badlist(self, own=False):
        s = self.s
        pool = self.BADARGS if own or s.draw(2) else [m for m in self.BADMARK if m != "marker"]
        b = s.pick(pool)
        k = s.draw(5)
        good = "Debug"
        if k == 1 and b not in (",", ",Debug"):
            b = "Clone, " + b if not b.startswith(",") else b
        elif k == 2 and not b.endswith((",", "::")):
            b = b + ", Clone"
        elif k == 3 and not own:
            b = "marker = zz, " + b.lstrip(",") if b.lstrip(",") and not b.startswith((",",)) and b != "Debug,," else b
        elif k == 4 and not b.endswith((",", "::")):
            b = b + ","
        self.labels.add("list: " + b)
        return b

    def args_(self):
        b = self.badlist()
        v = self.vals(2)
        be = "match n { 0 => %s, _ => %s }" % tuple(v)
        return self.place([be, be], [b, "Debug"])

    def dup(self):
        s = self.s
        x = s.pick(["aa", "bb", "marker", "mk"])
        y = s.pick(["aa", "bb", "marker", x])
        ls = [["marker = %s" % x, "marker = %s" % y, "Debug"], ["marker = zz", "Debug"]]
        ls[0] = s.shuffle(ls[0])
        return self.place(["match n { 0 => %s, _ => %s }" % tuple(self.vals(2))] * 2, [", ".join(l) + s.pick(["", ","]) for l in ls], raw=True)

    def name(self):
        """A marker name that an enclosing attribute has."""
        s = self.s
        depth = s.int(2, 5)
        names = ["aa", "bb", "cc", "dd", "ee"][:depth]
        up = s.draw(depth - 1)
        names_bad = names[:-1] + [names[up]]
        if s.draw(4) == 3:      # the default name is a name, too
            names[up], names_bad[up], names_bad[-1] = None, None, "marker"
        self.labels.add("name used %d levels up" % (depth - 1 - up))
        def text(ns):
            a = ["Debug, marker = %s" % x if x else "Debug" for x in ns]
            be = "match n { 0 => 1u8, _ => 'c' }"
            for x in reversed(a[1:]):
                k = kinds[a.index(x) % 3] if False else kinds[len(a)]
                if k == 0:
                    be = "match n { 3 => 'x', 4 => 5u64, _ => { #[auto_enum(%s)] let y = %s; d(y); \"s\" } }" % (x, be)
                elif k == 1:
                    be = "if c { 1u8 } else { d(#[auto_enum(%s)] %s); 'z' }" % (x, be)
                else:
                    be = "if c { 1u8 } else { #[auto_enum(%s)] let _y = |c: bool, n: u8| %s; 'z' }" % (x, be)
            return "#[auto_enum(%s)] fn f(c: bool, n: u8) -> impl Debug { %s }" % (a[0], be)
        kinds = [s.draw(3) for _ in range(7)]
        # siblings may share a name
        extra = s.pick(["", "#[auto_enum] fn g(c: bool, n: u8) { #[auto_enum(Debug, marker = aa)] let _x = match n { 0 => 1u8, _ => aa!(2u16) }; #[auto_enum(Debug, marker = aa)] let _y = match n { 0 => 1u8, _ => aa!('c') }; }"])
        return [text(names_bad) + extra, text(names) + extra]

    def marg(self):
        """A marker without a well-formed expression."""
        s = self.s
        v = self.vals(2)
        b = s.pick(["", "1 2", "let x = 1;", "1;", "1, 2", "=", "fn", "x =>", "#[a]", "if c", "match n {", ";", "1 +"])
        b = b if not b.endswith("{") else "match n"
        self.labels.add("marker argument: " + b)
        t = "match n { 0 => { let z = mk!(%s); z } _ => %s }" % ("%s", v[1])
        t = s.pick(["match n { 0 => mk!(@), 1 => VV, _ => 3i64 }", "{ d(n); if c { mk!{@} } else { VV } }", "loop { if c { break mk![@]; } else { break VV; } }", "{ if c { d(1); mk!(@) } else { VV } }"]).replace("VV", v[1])
        return self.place([t.replace("@", b), t.replace("@", v[0])], ["Debug, marker = mk"] * 2)

    # ------------------------------------------------------------ misuses of enum_derive
    TR = ["Debug", "Display", "Iterator", "Iterator, DoubleEndedIterator", "Future", "io::Read", "fmt::Write", "Clone", "Clone, Debug,", "PartialEq, Eq", "", "Extend", "Write, Read"]

    def enum(self):
        s = self.s
        n = s.int(1, 6)
        tr = s.pick(self.TR)
        gen = s.draw(3) > 0
        ps = ["T%d" % i for i in range(n)]
        f = (lambda i: ps[i]) if gen else (lambda i: s_f[i])
        stds = {"Debug": "u8", "Display": "u8", "Iterator": "std::ops::Range<u8>", "Iterator, DoubleEndedIterator": "std::ops::Range<u8>", "Future": "std::future::Ready<u8>", "io::Read": "std::io::Empty", "fmt::Write": "String",
                "Clone": "u8", "Clone, Debug,": "u8", "PartialEq, Eq": "u8", "": "u8", "Extend": None, "Write, Read": "std::io::Cursor<Vec<u8>>"}
        if not gen and stds[tr] is None:
            tr = "Debug"
        s_f = [stds[tr]] * n
        g = "<%s>" % ", ".join(ps) if gen else ""
        vs = ["V%d(%s)" % (i, f(i)) for i in range(n)]
        at = s.draw(n)
        how = s.pick(["disc", "unit", "named", "multi", "zero", "zeronamed", "none", "struct", "union", "fn", "tuplestruct", "unitstruct", "trait", "impl", "mod", "const", "type", "use", "static"])
        self.labels.add("enum: " + how)
        vis = s.pick(["", "pub ", "pub(crate) "])
        dv = s.pick(["#[enum_derive(%s)]", "#[crate::p::enum_derive(%s)]"]) % tr
        pre = "".join(s.pick(["#[allow(unused)] ", "/** d */ "]) for _ in range(s.draw(2)))
        good = "%s%s %senum E%s { %s }" % (pre, dv, vis, g, ", ".join(vs) + s.pick(["", ","]))
        bv = list(vs)
        rep = ""
        if how == "disc":
            bv[at] += s.pick([" = 3", " = 1 + 1", " = -1"])
            rep = "#[repr(i8)] "
        elif how == "unit":
            bv.insert(at, "U")
        elif how == "named":
            bv[at] = "V%d { %s: %s }" % (at, s.pick(["a", "r#fn", "x"]), f(at))
        elif how == "multi":
            bv[at] = "V%d(%s)" % (at, ", ".join([f(at)] * s.int(2, 4)))
        elif how == "zero":
            bv.insert(at, "Z()")
        elif how == "zeronamed":
            bv.insert(at, "Z {}")
        if how in ("disc", "unit", "named", "multi", "zero", "zeronamed"):
            return ["%s%s%s %senum E%s { %s }" % (pre, rep, dv, vis, g, ", ".join(bv)), good]
        t = {"none": "enum E {}", "struct": "struct E { a: u8 }", "union": "union E { a: u8 }", "fn": "fn e() {}", "tuplestruct": "struct E<T>(T);", "unitstruct": "struct E;", "trait": "trait E {}", "impl": "impl X {}", "mod": "mod m {}",
             "const": "const A: u8 = 1;", "type": "type B = u8;", "use": "use std::fmt as f2;", "static": "static A: u8 = 1;"}[how]
        return ["struct X; %s%s %s%s" % (pre, dv, "" if how == "impl" else vis, t), good]

    def eargs(self):
        b = self.badlist(own=True) if self.s.draw(3) else self.s.pick(["marker = x", "Debug, marker = x"])
        b = b.replace("Clone, Clone", "Clone")
        h = self.s.pick(["enum E<A, B> { X(A), Y(B) }", "enum E { X(u8) }", "pub enum E<A> { X(A), Y(Vec<A>) }"])
        return ["#[enum_derive(%s)] %s" % (b, h), "#[enum_derive(Debug)] %s" % h]




class MisT(Mis):
    """Transpose on fields that are not exactly the generics, in order."""
    def case(self, i):
        s = self.s
        n = s.int(1, 5)
        ps = ["T%d" % k for k in range(n)]
        at = s.draw(n)
        fs = list(ps)
        pre = list(ps)
        how = s.pick(["wrapped", "concrete", "missing", "const", "life", "ref", "swap" if n > 1 else "wrapped", "same" if n > 1 else "concrete", "assoc"])
        self.labels.add("Transpose: " + how)
        if how == "wrapped":
            fs[at] = s.pick(["Vec<%s>", "Option<%s>", "(%s,)", "[%s; 1]", "(%s, u8)"]) % fs[at]
        elif how == "concrete":
            fs[at] = s.pick(["u8", "String", "()"])
            del pre[at]
        elif how == "missing":
            fs.append(s.pick(["u8", "Vec<%s>" % ps[0]]))
        elif how == "const":
            pre.append("const N: usize")
            fs[at] = "[%s; N]" % fs[at]
        elif how == "life":
            pre.insert(0, "'a")
            fs[at] = "&'a %s" % fs[at]
        elif how == "ref":
            fs[at] = "&'static %s" % fs[at]
            pre[at] = "%s: 'static" % pre[at]
        elif how == "swap":
            fs = s.shuffle(fs)
            if fs == ps:
                fs = fs[1:] + fs[:1]
        elif how == "same":
            del pre[at]
            fs[at] = pre[0]
        else:
            fs[at] = "<%s as IntoIterator>::Item" % ps[at]
            pre[at] += ": IntoIterator"
        tr = s.pick(["Transpose", "Transpose, Debug", "Clone, Transpose", "Debug, Transpose,"])
        t = "mod c%d { use crate::p::*; #[enum_derive(%s)] pub enum E%s { %s } }"
        return [t % (i, tr, "<%s>" % ", ".join(pre) if pre else "", ", ".join("V%d(%s)" % (j, f) for j, f in enumerate(fs))),
                t % (i, tr, "<%s>" % ", ".join(ps), ", ".join("V%d(%s)" % (j, f) for j, f in enumerate(ps)))]


# ---------------------------------------------------------------- random input
ARGSOUP = ["Debug", "Iterator", "fmt", "::", ",", ",", "=", "marker", "mk", "'a", "1", "\"s\"", "(", "[", "{", "<", ">", "&", "#", "!", "?", "+", "Fn(A) -> B", "<T as U>::V", "self", "crate", "super", "r#in", "_", "|", "..", ";", "->", "=>", "$", "@", "~", "T<u8>", "::<'a>", "1.5e3", "b'x'", "rec", "never", "nested", "auto_enum", "io", "Transpose", "Unpin", "Drop",
           "Coroutine", "Fn", "FnMut", "rayon", "serde::Serialize", "Ord", "Copy", "Eq"]


class WildSyn(Syn):
    def mark(self, d):
        if self.k(4) == 3:
            self.on("malformed marker")
            return "%s!%s" % (self.s.pick(self.marks), self.s.pick(["()", "{}", "[]", "(%s)" % self.s.pick(TOKS), "{ %s; }" % self.expr(d - 1), "(%s, %s)" % (self.expr(d - 1), self.expr(0)), "(let x = 1; x)", "(#[never] x)", "(#[nested] if a { 1 })"]))
        return Syn.mark(self, d)

    def note(self, name):
        k = self.k(6)
        if k == 5:
            self.on("malformed annotation")
            name = re.sub(r"\(.*", "", name) + self.s.pick(["(x)", "()", " = 1", "(\"a\")", "{b}", "[1, 2]", "", "(" + soup(self.s) + ")"])
        elif k == 4:
            self.on("several annotations")
            return Syn.note(self, name) + Syn.note(self, self.s.pick(["never", "nested", "rec", "auto_enum", "auto_enum(Debug)", name]))
        return Syn.note(self, name)

    def eattr(self):
        return self.wild(Syn.eattr(self))

    def wild(self, a):
        if self.notes and self.k(12) == 11:
            self.on("annotation anywhere")
            return self.note(self.s.pick(["never", "nested", "rec", "auto_enum", "auto_enum(Debug)", "auto_enum()", "auto_enum(Debug, marker = mk)"]))
        return a

    def attr(self, n=8):
        return self.wild(Syn.attr(self, n))

    def item(self, d):
        notes, self.notes = self.notes, False
        try:
            return Syn.item(self, d)
        finally:
            self.notes = notes


def soup(s):
    out, stack = [], []
    for _ in range(s.draw(9)):
        t = s.pick(ARGSOUP)
        if t in "([{":
            stack.append({"(": ")", "[": "]", "{": "}"}[t])
        out.append(t)
        if stack and s.draw(2):
            out.append(stack.pop())
    return " ".join(out + stack[::-1])


def argument(s):
    k = s.draw(9)
    if k < 6:
        return s.pick(["Debug", "Iterator,", "Debug, marker = mk", "fmt::Debug, Clone", "Future", "Foo"])
    if k == 6:
        return ", ".join(s.pick(["Debug", "Clone", "io::Read", "Transpose", "Fn", "DoubleEndedIterator", "Coroutine", "marker = mk", "a::b::C", "Ord", "rayon::ParallelIterator", "marker = self", "Unpin", "Sized", "dyn", "Extend"]) for _ in range(s.draw(12)))
    return soup(s)


class Wild(ExpandGen):
    def __init__(self, s):
        self.s = s
        self.y = WildSyn(s, fuel=30 + 40 * s.draw(3))
        self.n = 0

    def case(self, i):
        s, y = self.s, self.y
        self.dummy, self.method = s.draw(8) == 7, False
        a = argument(s)
        if s.draw(3) == 2:
            y.on("enum_derive")
            y.marks, y.notes = (), False
            return "mod c%d { %s }" % (i, self.enum("#[auto_enums::enum_derive(%s)]" % a))
        A = "#[auto_enums::auto_enum(%s)]" % a if s.draw(12) else s.pick(["#[auto_enums::auto_enum]", "#[auto_enums::auto_enum[%s]]", "#[auto_enums::auto_enum{%s}]"]).replace("%s", a)
        y.marks, y.notes = s.pick([("marker",), ("mk",), ("mk", "marker")]), True
        k = s.weighted([(8, "fn"), (4, "let"), (1, "stmt"), (1, "item"), (1, "expr"), (1, "body")])
        y.on("on: " + k)
        if k == "fn":
            return "mod c%d { %s }" % (i, self.fnitem(A))
        if k == "let":
            y.notes = s.draw(2) == 1
            return "fn c%d() { %s }" % (i, "%s let %s%s;" % (A, s.pick(["x", "mut x", "(x, ref y)", "x: u8", "_", "x: impl Iterator", y.pat(2)]),
                                        s.pick(["", " = %s" % self.multi(3, 2), " = %s" % y.expr(3), " = (%s) else { %s }" % (y.expr(2), y.stmt(2))])))
        if k == "stmt":
            return "fn c%d() { %s %s; }" % (i, A, s.pick(["%s" % y.mac(2) if not s.draw(2) else "m!{}", "(%s)" % y.expr(3), "{ %s }" % y.stmt(3), "return %s" % y.expr(2), "match x { %s }" % y.arms(3), "loop { %s }" % y.stmt(3), "|x| (%s)" % y.expr(3), "marker!(1)", "if %s { %s }" % (y.cond(2), y.stmt(2)), "async { %s }" % y.stmt(3)]))
        if k == "expr":
            return "fn c%d() { f((%s (%s))); }" % (i, A, y.expr(4))
        if k == "item":
            y.notes = False
            it = y.item(3)
            return "mod c%d { %s %s }" % (i, A, it)
        return "mod c%d { %s fn f() -> %s { %s } }" % (i, A, s.pick(["impl X", "Result<u8, impl X>", "u8", "std::result::Result<(), impl X + Y>", "Result<impl X>", "Result<u8, impl A, impl B>", "Result", "<T as Result>::Result<A, impl B>", "Option<impl X>", "r::Result::<u8, impl X>", "!"]), y.stmt(4) + self.s.pick(["", " " + y.tail(4)]))

    def enum(self, A):
        s, y = self.s, self.y
        gs = s.pick(["", "<T>", "<'a, T: %s + ?Sized = u8, const N: usize = 3>" % y.bound(1), "<A, B>", "<>", "<A: Tr<'static>,>"])
        v = []
        for i in range(s.weighted([(4, 2), (3, 1), (2, 3), (1, 0), (1, 12)])):
            at = s.pick(["", "", "/** d */ ", "#[default] ", "#[cfg(any())] ", "#[x = 1] "])
            v.append("%sV%d%s" % (at, i, s.weighted([(40, "(%s)" % y.ty(2)), (1, ""), (1, " { a: %s }" % y.ty(1)), (1, "(%s, %s)" % (y.ty(1), y.ty(1))), (1, "()"), (1, " = %s" % y.expr(1)), (1, " {}"), (6, "(pub %s)" % y.ty(1)), (2, "(#[x] %s)" % y.ty(1)), (16, "(A)")])))
        if s.draw(20) == 19:
            return "%s %s" % (A, y.item(2))
        return "%s%s %s%s enum E%s %s { %s }" % (s.pick(["", "#[derive(Clone)] ", "#[repr(u8)] "]), A, s.pick(["", "#[non_exhaustive] "]), s.pick(["", "pub", "pub(in crate::x)"]), gs, s.pick(["", "where T: Tr, for<'b> &'b A: X", "where [u8; N]: Sized"]), ", ".join(v))


# ---------------------------------------------------------------- rustc as the judge
def rustc(d, mac, name, lines, edition="2021", timeout=240):
    """Compiles one file of one-line cases. Returns ({line index: [(own, message)]}, trouble or None)."""
    src = os.path.join(d, name + ".rs")
    with open(src, "w") as f:
        f.write(HEAD + "".join(l.replace("\n", " ") + "\n" for l in lines) + "compile_error!(\"canary\");\n")
    args = [build.rustc(), "--error-format=json", "--edition", edition, "--crate-type", "rlib", "--crate-name", "m", "--emit=metadata", "-o", os.path.join(d, name + ".rmeta")] + mac.flags() + [src]
    try:
        p = subprocess.run(args, cwd=d, env=build.env(), capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return {}, "rustc did not end within %d s" % timeout
    errs, trouble, canary = {}, None, False
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            if "internal compiler error" in l or "panicked at" in l:
                trouble = trouble or l
            continue
        try:
            g = json.loads(l)
        except ValueError:
            continue
        if not g.get("level", "").startswith("error"):
            continue
        if "internal compiler error" in g["message"] or g["level"].startswith("error: internal"):
            trouble = trouble or g["message"]
            continue
        if g["message"].startswith("aborting due to"):
            continue
        if g["message"] == "canary":
            canary = True
            continue
        ls = set()
        for sp in g["spans"]:
            if sp["is_primary"]:
                while sp.get("expansion") and not sp["file_name"].endswith(name + ".rs"):
                    sp = sp["expansion"]["span"]
                if sp["file_name"].endswith(name + ".rs"):
                    ls.add(sp["line_start"] - NHEAD - 1)
        own = g.get("code") is None and not re.match(r"cannot find|cannot determine|expected .* found .*(attribute|macro|module)", g["message"])
        if not ls or any(x < 0 or x >= len(lines) for x in ls):
            errs.setdefault(-1, []).append((own, g["message"]))
        for x in ls:
            errs.setdefault(x, []).append((own, g["message"]))
    if p.returncode not in (0, 1):
        trouble = trouble or "rustc ended with %d: %s" % (p.returncode, p.stderr[-300:])
    if not canary and not trouble:
        # nothing was expanded: one of the lines is not Rust
        return errs, NOT_RUST
    return errs, trouble


NOT_RUST = "not Rust"


def strip(t):
    return re.sub(r"#\[(crate::p::|::auto_enums::|auto_enums::)?(auto_enum|enum_derive)\b[^\]]*(\[[^\]]*\][^\]]*)*\]", "", t)


def gen_wild(s, i):
    g = Wild(s)
    return [re.sub(r"///( *\w+) *\n", r"/**\1 */", g.case(i)).replace("\n", " ")], g.y.labels


def gen_mis(s, i):
    g = Mis(s)
    return g.case(i), g.labels


def gen_tr(s, i):
    g = MisT(s)
    return g.case(i), g.labels


GENS = {"wild": gen_wild, "misuse": gen_mis, "transpose": gen_tr}


def judge_wild(d, mac, name, ts, edition="2021"):
    """[(text, verdict or None, class)]"""
    errs, trouble = rustc(d, mac, name, ts, edition)
    if trouble:
        if len(ts) == 1 and trouble == NOT_RUST:
            return [None], ["not Rust"]
        if len(ts) == 1:
            e2, t2 = rustc(d, mac, name + "s", [strip(ts[0])], edition)
            return [None if t2 else "the compiler gave up: %s" % trouble], ["gave up"]
        h = len(ts) // 2
        a, ca = judge_wild(d, mac, name + "l", ts[:h], edition)
        b, cb = judge_wild(d, mac, name + "r", ts[h:], edition)
        return a + b, ca + cb
    out, cls = [], []
    for i in range(len(ts)):
        ms = errs.get(i, [])
        bad = [m for _, m in ms if "panicked" in m]
        out.append("the attribute panicked: %s" % bad[0] if bad else None)
        cls.append("rejected by the attribute" if any(o for o, _ in ms) else "expanded")
    if -1 in errs:
        if len(ts) == 1:
            out[0] = out[0] or "an error without a place in the annotated code: %s" % errs[-1][0][1]
        else:
            h = len(ts) // 2
            a, _ = judge_wild(d, mac, name + "l", ts[:h], edition)
            b, _ = judge_wild(d, mac, name + "r", ts[h:], edition)
            out = [x or y for x, y in zip(out, a + b)]
    return out, cls


def judge_mis(d, mac, name, pairs):
    """Verdicts for (bad, good) pairs; the second list says which twins are no twins."""
    ge, gt = rustc(d, mac, name + "g", [g for _, g in pairs])
    be, bt = rustc(d, mac, name + "b", [b for b, _ in pairs])
    out, invalid = [], []
    if gt or bt:
        if len(pairs) > 1:
            h = len(pairs) // 2
            a, ia = judge_mis(d, mac, name + "l", pairs[:h])
            b, ib = judge_mis(d, mac, name + "r", pairs[h:])
            return a + b, ia + ib
        if NOT_RUST in (gt, bt):
            return [None], ["not Rust"]
        return ["the compiler gave up: %s" % (gt or bt)], [None]
    for i, (b, g) in enumerate(pairs):
        inv = [m for _, m in ge.get(i, [])]
        ms = be.get(i, [])
        v = None
        if any("panicked" in m for _, m in ms):
            v = "the attribute panicked"
        elif not any(o for o, _ in ms):
            v = "misuse is not reported by the attribute" + (" (rustc says: %s)" % ms[0][1] if ms else ": it compiles")
        out.append(v)
        invalid.append(inv[0] if inv else None)
    return out, invalid


def check(rep):
    rep.rule.append("Misuse pairs: a generated misuse, which must be answered with an error of the attribute on its line, and a twin without the misuse, which must compile. "
                    "Random input: random syntax with random annotations, markers and argument tokens under both attributes; no panic, no compiler crash, every error within the code. Non-trivial: distinct misuses, and random inputs with an annotation, marker or argument.")
    rep.assumptions.append("an error counts as the attribute's own if rustc gives it no error code and it is not a name resolution error")
    macs = {"misuse": build.cargo_build("default", build.DEFAULT_FEATURES), "transpose": build.cargo_build("all", build.ALL_FEATURES)}
    macs["wild"] = macs["misuse"]
    d = build.scratch("C08")
    try:
        if rep.replay:
            k = rep.replay["generator"]
            t, _ = GENS[k](choice.Src(choices=rep.replay["choices"]), 0)
            mac = macs["transpose"] if rep.replay.get("flavour") == "all" else macs[k]
            v = judge_wild(d, mac, "x", t)[0][0] if k == "wild" else judge_mis(d, mac, "x", [t])[0][0]
            if v:
                rep.violation(rep.replay["key"], v + "\n" + t[0], {k: rep.replay[k] for k in ("choices", "source", "generator", "flavour") if k in rep.replay})
            return
        big = rep.tier != "quick"
        fails = []
        plan = [("misuse", int((5000 if not big else 40000) * rep.scale), 100, macs["misuse"], ""), ("transpose", int((400 if not big else 3000) * rep.scale), 60, macs["transpose"], ""),
                ("wild", int((8000 if not big else 80000) * rep.scale), 200, macs["misuse"], ""), ("wild", int((3000 if not big else 20000) * rep.scale), 200, macs["transpose"], "all")]
        jobs = []
        for kind, n, per, mac, fl in plan:
            todo = []
            for i in range(n):
                s = choice.Src(seed="C08/%s%s/%d/%d" % (kind, fl, rep.seed, i))
                t, lb = GENS[kind](s, i)
                todo.append((t, lb, s.log))
            jobs += [(kind, mac, fl, "%s%s%d" % (kind, fl, k), todo[k:k + per]) for k in range(0, n, per)]

        def one(j):
            kind, mac, fl, name, todo = j
            if kind == "wild":
                return judge_wild(d, mac, name, [t[0] for t, _, _ in todo])
            return judge_mis(d, mac, name, [t for t, _, _ in todo])
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, jobs))
        inv = tot = 0
        for (kind, mac, fl, name, todo), (vs, second) in zip(jobs, outs):
            for (t, lb, log), v, x in zip(todo, vs, second):
                rep.label(lb)
                if kind == "wild":
                    rep.evaluations += 1
                    rep.label(["random input: " + x])
                    if x == "not Rust":
                        rep.evaluations -= 1
                        if os.environ.get("VERIF_DEBUG"):
                            print("NOT RUST", t[0])
                        continue
                    rep.nontrivial.add(report.digest(re.sub(r"\bc\d+\b", "", t[0])))
                else:
                    tot += 1
                    if x:
                        inv += 1
                        rep.label(["twin does not compile"])
                        if os.environ.get("VERIF_DEBUG"):
                            print("INVALID", x, "\n   ", t[1])
                        continue
                    rep.evaluations += 1
                    rep.nontrivial.add(report.digest(re.sub(r"\bc\d+\b", "", t[0])))
                if v:
                    fails.append((log, kind, mac, fl, t, v))
                elif len(rep.nontrivial) in (5, 4000):
                    rep.sample({"source": t[0][:2500]})
        rep.extra["invalid_twins"] = inv
        if inv > max(3, tot // 50) and not fails:
            # the twins are ordinary uses: when they stop compiling there is nothing to compare with
            rep.extra["many_invalid_twins"] = True
        fails.sort(key=lambda x: len(x[0]))
        seen = {}
        for log, kind, mac, fl, t, v in fails:
            if seen.setdefault(kind, 0) >= 2:
                continue
            seen[kind] += 1
            r = [0]

            def test_many(lists):
                gs = []
                for j, l in enumerate(lists):
                    try:
                        gs.append(GENS[kind](choice.Src(choices=l), j)[0])
                    except RecursionError:
                        gs.append(["mod c%d {}" % j] * 2)
                r[0] += 1
                nm = "s%d_%d" % (len(log), r[0])
                if kind == "wild":
                    return [x is not None for x in judge_wild(d, mac, nm, [g[0] for g in gs])[0]]
                a, b = judge_mis(d, mac, nm, gs)
                return [bool(x) and not y for x, y in zip(a, b)]
            m = choice.shrink(log, test_many, rounds=8)
            t2, _ = GENS[kind](choice.Src(choices=m), 0)
            vv, xx = judge_wild(d, mac, "f", [t2[0]]) if kind == "wild" else judge_mis(d, mac, "f", [t2])
            if vv[0] and (kind == "wild" or not xx[0]):
                t, v, log = t2, vv[0], m
            rep.violation("c08:%s:%s" % (kind, report.digest(t[0])), "%s\n%s%s" % (v, t[0], "\ntwin: " + t[1] if len(t) > 1 else ""), {"choices": log, "generator": kind, "flavour": fl, "source": t[0]})
        rep.extra["more_failing_cases"] = max(0, len(fails) - sum(seen.values()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C08": check}
