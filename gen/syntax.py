"""Random syntactically valid Rust: expressions, patterns, types, statements, items. Nothing here needs to type-check."""

import re

IDS = ["a", "b", "x", "yy", "r#type", "r#match", "_u", "self_", "Enum", "val", "err", "marker_", "Ok_", "never", "nested", "union", "auto", "default", "raw", "r#try"]
PATHS = ["a", "x::y", "crate::m::f", "::core::mem::drop", "self::q", "super::z", "Vec::<u8>::new", "<T as Tr>::X", "<[u8]>::len", "Self::A", "r#box::c", "T::<'a, {1}, 3>::f",
         "std::marker::PhantomData", "Option::Some", "None", "<Self as A<B = C>>::f", "Fn(A) -> B", "m::marker"]
LITS = ["0", "1u8", "0xffi64", "1_000", "1.5", "2.", "1e3f32", "\"s\"", "r#\"raw \"q\" \"#", "b\"by\"", "b'x'", "'c'", "'\\''", "true", "false", "c\"cs\"", "\"\\u{1F600}\\n\\\"\"", "r\"\\\"", "-1", "-2.5"]
BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]
OPA = ["=", "+=", "-=", "*=", "<<=", "|=", "^="]
ATTRS = ["#[allow(unused)]", "#[cfg(any())]", "#[cfg_attr(all(), allow(unused))]", "#[inline]", "#[rustfmt::skip]", "/** d */", "#[my::tool(a = \"b\", { c })]", "#[x = 1]", "#[must_use]", "#[never_]", "#[foo::never]", "#[nested_x]"]
MACROS = ["m!(%s)", "vec![%s]", "a::b!{%s}", "println!(\"{}\", %s)", "matches!(%s, Some(_))", "r#try!(%s)", "m![%s; 3]", "path::marker!(%s)", "::marker!(%s)", "assert_eq!(%s, 1)"]
TOKS = ["a b c", "=> { } ,", "$ x:expr", "# [never] 1", "if", "match { }", "'a", "marker!(1)", "auto_enum", "return 1", "..=", "1 2 \"\""]


class Syn:
    def __init__(self, s, fuel=60, marks=(), notes=False, items=True):
        self.s, self.fuel, self.marks, self.notes, self.items = s, fuel, marks, notes, items
        self.labels = set()
        self.inner = 0

    def k(self, n):
        return self.s.draw(n)

    def alt(self, *ws):
        r = self.s.weighted(ws)
        return r

    def on(self, l):
        self.labels.add(l)

    def attr(self, n=8):
        return self.s.pick(ATTRS) + " " if self.k(n) == n - 1 else ""

    def id(self):
        return self.s.pick(IDS)

    # ------------------------------------------------------------ types
    def ty(self, d):
        self.fuel -= 1
        if d <= 0 or self.fuel < 0:
            return self.s.pick(["u8", "T", "Self", "()", "!", "_", "&'a str", "Vec<u8>", "a::B"])
        k = self.alt((3, "n"), (2, "path"), (2, "ref"), (1, "ptr"), (1, "tup"), (1, "arr"), (1, "fn"), (1, "dyn"), (1, "impl"), (1, "q"), (1, "paren"), (1, "mac"), (1, "fnt"), (1, "assoc"))
        t = lambda: self.ty(d - 1)
        if k == "n":
            return self.ty(0)
        if k == "path":
            return "Map<'a, %s, {N + 1}, %s>" % (t(), t())
        if k == "ref":
            return "&%s%s" % (self.s.pick(["", "'a ", "mut ", "'_ mut ", "'static "]), "(%s)" % t() if self.k(2) else "[%s]" % t())
        if k == "ptr":
            return "*%s %s" % (self.s.pick(["const", "mut"]), "[%s]" % t())
        if k == "tup":
            return "(%s, %s)" % (t(), t()) if self.k(2) else "(%s,)" % t()
        if k == "arr":
            return "[%s; %s]" % (t(), "{ %s }" % self.expr(d - 1) if self.k(2) else "3")
        if k == "fn":
            return self.s.pick(["fn(%s) -> %s", "unsafe extern \"C\" fn(%s, ...) -> %s", "for<'b> fn(x: &'b %s) -> %s", "extern fn(_: %s) -> %s"]) % (t(), t())
        if k == "dyn":
            return "(dyn %s + 'a)" % self.bound(d)
        if k == "impl":
            return "(impl %s + ?Sized)" % self.bound(d)
        if k == "q":
            return "<%s as Tr<%s>>::Out" % (t(), t())
        if k == "paren":
            return "(%s)" % t()
        if k == "mac":
            return "tym!(%s)" % self.s.pick(TOKS[:4])
        if k == "fnt":
            return "Box<dyn for<'z> Fn(&'z %s, %s) -> %s>" % (t(), t(), t())
        return "I<Item = %s, G<'x>: Send, C = 3>" % t()

    def bound(self, d):
        return self.s.pick(["Tr", "for<'b> Tr<'b>", "Iterator<Item = %s>" % self.ty(d - 1), "Fn(%s) -> u8" % self.ty(d - 1), "a::B<{ 1 }>"])

    # ------------------------------------------------------------ patterns
    def pat(self, d, top=False):
        self.fuel -= 1
        if d <= 0 or self.fuel < 0:
            return self.s.pick(["_", self.id(), "1", "'c'", "A::B", "\"s\"", "ref x", "mut y", "-1", "..=3", "b'a'..=b'z'", "None"])
        k = self.alt((3, "leaf"), (2, "ts"), (1, "st"), (1, "tup"), (1, "sl"), (1, "ref"), (1, "or"), (1, "at"), (1, "range"), (1, "mac"), (1, "const"), (1, "box"))
        p = lambda: self.pat(d - 1)
        if k == "leaf":
            return self.pat(0)
        if k == "ts":
            return "E::V(%s, .., %s)" % (p(), p()) if self.k(2) else "Some(%s)" % p()
        if k == "st":
            return "S { a: %s, ref mut b, %sc, 0: %s, .. }" % (p(), self.attr(4), p())
        if k == "tup":
            return "(%s, %s)" % (p(), p()) if self.k(2) else "(%s,)" % p()
        if k == "sl":
            return "[(%s), rest @ .., (%s)]" % (p(), p())
        if k == "ref":
            return "&%s(%s)" % (self.s.pick(["", "mut "]), p())
        if k == "or":
            return "(%s%s | %s)" % (self.s.pick(["", "| "]), p(), p())
        if k == "at":
            return "n @ (%s)" % p()
        if k == "range":
            return self.s.pick(["1..=5", "A::B..", "..=X", "'a'..'f', "[:-2], "-1..=1", "const { 3 }..=4" if False else "0..9"])
        if k == "mac":
            return "pm!(%s)" % self.s.pick(TOKS[:3])
        if k == "const":
            return "<T as A>::C"
        return "(%s)" % p()

    # ------------------------------------------------------------ expressions
    def atom(self, d):
        """An expression that can be an operand anywhere."""
        self.fuel -= 1
        if d <= 0 or self.fuel < 0:
            return self.leaf()
        k = self.alt((3, "leaf"), (3, "paren"), (3, "call"), (2, "meth"), (1, "field"), (1, "index"), (1, "mac"), (1, "try"), (1, "await"), (1, "arr"), (1, "tup"), (1 if self.marks else 0, "mark"))
        e = lambda: self.expr(d - 1)
        if k == "leaf":
            return self.leaf()
        if k == "paren":
            return "(%s%s)" % (self.eattr(), self.expr(d - 1))
        if k == "call":
            return "%s(%s)" % (self.atom0(d - 1), self.argl(d - 1))
        if k == "meth":
            return "%s.%s%s(%s)" % (self.atom0(d - 1), self.id_(), self.s.pick(["", "", "::<u8>", "::<'a, { 3 }, _>"]), self.argl(d - 1))
        if k == "field":
            return "%s.%s" % (self.atom0(d - 1), self.s.pick(["a", "0", "r#fn", "1"]))
        if k == "index":
            return "%s[%s]" % (self.atom0(d - 1), e())
        if k == "mac":
            return self.mac(d)
        if k == "try":
            return "%s?" % self.atom0(d - 1)
        if k == "await":
            return "%s.await" % self.atom0(d - 1)
        if k == "arr":
            return "[%s]" % ", ".join(self.iattr() + self.expr(d - 1) for _ in range(self.k(4))) if self.k(3) else "[%s; %s]" % (e(), e())
        if k == "tup":
            return self.s.pick(["(%s, %s)" % (e(), e()), "(%s,)" % e(), "()"])
        return self.mark(d)

    def atom0(self, d):
        a = self.atom(d)
        return "(%s)" % a if a.startswith("-") or a[0].isdigit() else a

    def id_(self):
        i = self.id()
        return "m" if i in ("await",) else i

    def argl(self, d):
        return ", ".join(self.iattr() + self.expr(d) for _ in range(self.k(3)))

    def iattr(self):
        # rustc hands a comma after an attributed element to attribute macros only; plain attributes are fine
        return ""

    def eattr(self):
        return self.attr(10)

    def leaf(self):
        k = self.k(6)
        if k < 2:
            return self.s.pick(LITS)
        if k < 4:
            return self.id()
        p = self.s.pick(PATHS)
        return p if not p.startswith("Fn(") else "F::g"

    def mark(self, d):
        self.on("marker")
        n = self.s.pick(self.marks)
        e = self.expr(d - 1)
        m = self.s.pick(["%s!(%s)", "%s![%s]", "%s!{%s}", "%s! {%s}"]) % (n, e)
        if self.k(5) == 4:
            self.on("marker with attributes")
            return "(%s%s)" % (self.attrs(), m)
        return m

    def attrs(self):
        """One to three attributes."""
        return "".join(self.s.pick(ATTRS) + " " for _ in range(1 + self.k(3)))

    def note(self, name):
        """An annotation among other attributes."""
        a = [self.s.pick(ATTRS) for _ in range(self.s.weighted([(4, 0), (1, 1), (2, 3), (1, 4)]))]
        a.insert(self.k(len(a) + 1), "#[%s]" % name)
        if len(a) > 2:
            self.on("annotation among attributes")
        return " ".join(a) + " "

    def mac(self, d):
        self.on("opaque macro")
        if self.k(2):
            return self.s.pick(["m!(%s)", "a::b!{%s}", "q![%s]", "::w::z!(%s)"]) % self.s.pick(TOKS)
        return self.s.pick(MACROS) % self.expr(d - 1)

    def block(self, d):
        n = self.k(3)
        return "{ %s%s }" % (" ".join(self.stmt(d) for _ in range(n)), (" " + self.tail(d)) if self.k(4) else "")

    def tail(self, d):
        return self.eattr_block(d)

    def eattr_block(self, d):
        e = self.expr(d)
        # an expression statement that begins with a block-like expression needs parentheses to go on
        return self.guard(e)

    def guard(self, e):
        """Makes e usable at the start of a statement."""
        if re.match(r"[\w:#]+ ?! ?\{", e):
            return "(%s)" % e
        for p in BLOCKISH:
            if e.startswith(p):
                if self.closed(e):
                    return e
                return "(%s)" % e
        return e

    def closed(self, e):
        return e in self.blk

    def cond(self, d):
        k = self.alt((3, "e"), (2, "let"), (1, "chain"))
        def op():
            return "(%s)" % self.expr(d - 1) if self.k(2) else self.s.pick(["x", "a.b", "f(1)", "!x", "true", "x == 1"])
        sc = lambda: "(%s)" % self.expr(d - 1) if self.k(2) else self.s.pick(["x", "f(2)", "a.b()", "&x", "x?"])
        if k == "e":
            return op()
        if k == "let":
            return "let %s = %s" % (self.pat(d - 1), sc())
        return "let %s = %s && %s && let %s = %s" % (self.pat(d - 1), sc(), "(%s)" % op(), self.pat(0), sc())

    blk = None

    def blocklike(self, d):
        if self.blk is None:
            self.blk = set()
        k = self.alt((2, "if"), (2, "match"), (1, "loop"), (1, "while"), (1, "for"), (1, "unsafe"), (2, "block"), (1, "async"), (1, "const"), (1, "try"), (1, "lblock"))
        l = self.s.pick(["", "", "'l: ", "'r#a: " if False else "'outer: "])
        if k == "if":
            e = "if %s %s" % (self.cond(d), self.block(d - 1))
            while self.k(3) == 2 and self.fuel > 0:
                e += " else if %s %s" % (self.cond(d - 1), self.block(d - 1))
            if self.k(3):
                e += " else %s" % self.block(d - 1)
        elif k == "match":
            e = "match %s { %s }" % (self.s.pick(["x", "(%s)" % self.expr(d - 1), "f(x)"]), self.arms(d))
        elif k == "loop":
            e = "%sloop %s" % (l, self.block(d - 1))
        elif k == "while":
            e = "%swhile %s %s" % (l, self.cond(d), self.block(d - 1))
        elif k == "for":
            e = "%sfor %s in %s %s" % (l, self.pat(d - 1), self.s.pick(["x", "0..3", "(%s)" % self.expr(d - 1)]), self.block(d - 1))
        elif k == "unsafe":
            e = "unsafe %s" % self.block(d - 1)
        elif k == "block":
            e = self.block(d - 1)
        elif k == "lblock":
            e = "'b: %s" % self.block(d - 1)
        elif k == "async":
            e = "async %s%s" % (self.s.pick(["", "move "]), self.block(d - 1))
        elif k == "const":
            e = "const %s" % self.block(d - 1)
        else:
            e = "try %s" % self.block(d - 1)
            self.on("try block")
        self.on(k)
        self.blk.add(e)
        return e

    def arms(self, d):
        out = []
        for _ in range(self.k(3)):
            g = " if %s" % self.cond(d - 1) if self.k(4) == 3 else ""
            p = self.s.pick(["", "", "", "| "]) + self.pat(d - 1)
            b = self.expr(d - 1)
            sep = "," if not (b in (self.blk or ()) and b.startswith("{")) or self.k(2) else ""
            out.append("%s%s%s => %s%s" % (self.attr(10), p, g, b, sep))
        return " ".join(out)

    def expr(self, d):
        """Any expression but with operands delimited."""
        self.fuel -= 1
        if self.blk is None:
            self.blk = set()
        if d <= 0 or self.fuel < 0:
            return self.leaf()
        k = self.alt((4, "atom"), (3, "bin"), (1, "un"), (1, "cast"), (1, "asg"), (4, "blk"), (2, "clo"), (1, "ref"), (1, "range"), (1, "struct"), (2, "jump"), (1, "blkop"), (1, "yield"), (1, "under"))
        a = lambda: self.atom(d - 1)
        if k == "atom":
            return a()
        if k == "bin":
            self.on("binary")
            x = a()
            op = self.s.pick(BIN)
            y = a()
            if self.k(3) == 2:
                return "%s %s %s %s %s" % (self.paren_(x), "+", y, "*", self.atom(d - 2))
            return "%s %s %s" % (self.paren_(x), op, self.paren_(y))
        if k == "un":
            return self.s.pick(["!", "-", "*", "!!", "- -", "-*"]) + self.atom0(d - 1)
        if k == "cast":
            return "%s as %s" % (a(), self.s.pick(["u8", "*const T", "(%s)" % self.ty(d - 1)]))
        if k == "asg":
            return "%s %s %s" % (a(), self.s.pick(OPA), self.expr(d - 1))
        if k == "blk":
            return self.blocklike(d)
        if k == "clo":
            self.on("closure")
            mv = self.s.pick(["", "move ", "async ", "async move ", "static " if False else ""])
            ps = ", ".join(self.s.pick(["_", "x", "%s" % self.pat(0).replace("|", "_"), "mut y: %s" % self.ty(1), "(a, b): (u8, T)", "&q"]) for _ in range(self.k(3)))
            ps = ps if self.clopat(ps) else "x"
            if self.k(4) == 3:
                return "%s|%s| -> %s %s" % (mv, ps, self.ty(1), self.block(d - 1))
            return "%s|%s| %s" % (mv, ps, self.expr(d - 1))
        if k == "ref":
            return self.s.pick(["&", "&mut ", "&&", "&raw const ", "&raw mut "]) + self.atom0(d - 1)
        if k == "range":
            x, y = self.paren_(a()), self.paren_(a())
            return self.s.pick(["%s..%s" % (x, y), "%s..=%s" % (x, y), "%s.." % x, "..%s" % y, "..", "..=%s" % y])
        if k == "struct":
            self.on("struct literal")
            return "%s { a: %s, %sb, 0: %s, %s }" % (self.s.pick(["S", "m::T::<u8>", "Self", "<X as Y>::Z", "S::<'a>"]), self.expr(d - 1), self.attr(4), self.expr(d - 1), self.s.pick(["", "..x", ".." + self.expr(d - 2)]))
        if k == "jump":
            r = self.k(6)
            if r == 0:
                self.on("return")
                return "return %s" % self.expr(d - 1)
            if r == 1:
                return self.s.pick(["return", "break", "continue", "continue 'l", "break 'outer"])
            if r == 2:
                return "break %s" % self.nolabel(self.expr(d - 1))
            if r == 3:
                return "break 'l %s" % self.expr(d - 1)
            self.on("return")
            return "return %s" % self.expr(d - 1)
        if k == "blkop":
            b = self.blocklike(d)
            if b.startswith("'"):
                b = "(%s)" % b
            if b.startswith(("for", "while", "if", "match", "loop", "{", "unsafe", "async", "const", "try")):
                self.on("block as receiver")
                if b.startswith(("const", "try", "async")):
                    return "(%s).foo(%s)" % (b, self.argl(d - 1))
                return "(%s).foo(%s)" % (b, self.argl(d - 1)) if self.k(2) else "(%s) %s %s" % (b, self.s.pick(BIN), self.paren_(a()))
            return "(%s)?" % b
        if k == "yield":
            return "(%s)" % self.expr(d - 1)
        return "_ = %s" % self.expr(d - 1)

    def clopat(self, ps):
        return "|" not in ps and ".." not in ps

    def nolabel(self, e):
        return "(%s)" % e if e.startswith("'") else e

    def paren_(self, x):
        return "(%s)" % x if x.endswith((" as u8", "..")) or x.startswith("-") else x

    # ------------------------------------------------------------ statements
    def stmt(self, d):
        self.fuel -= 1
        if self.blk is None:
            self.blk = set()
        if self.fuel < 0:
            return "x;"
        k = self.alt((4, "let"), (4, "expr"), (2, "blk"), (2 if self.items else 0, "item"), (1, "mac"), (1, "semi"), (1 if self.marks else 0, "mark"))
        at = self.attr(8)
        if k == "let":
            self.on("let")
            p = self.s.pick(["x", "mut y", "_", self.pat(d - 1)])
            t = ": " + self.ty(2) if self.k(3) == 2 else ""
            if self.k(6) == 5:
                return "%slet %s%s;" % (at, p, t)
            if self.k(6) == 5:
                self.on("let-else")
                return "%slet %s%s = (%s) else %s;" % (at, p, t, self.expr(d - 1), self.block(d - 1))
            return "%slet %s%s = %s;" % (at, p, t, self.expr(d - 1))
        if k == "expr":
            e = self.guard(self.expr(d - 1))
            if at and e[:1] in "'{(" or at and e.startswith(BLOCKISH):
                at = ""
            if at and not e.replace("_", "a").isalnum():
                at = ""
            return "%s%s;" % (at, e)
        if k == "blk":
            b = self.blocklike(d)
            return b + ";" if b.startswith("async") else b
        if k == "mac":
            self.on("macro statement")
            return self.s.pick(["m!{%s}", "m!(%s);", "m![%s];", "x::y! { %s }"]) % self.s.pick(TOKS)
        if k == "semi":
            return ";"
        if k == "mark":
            self.on("marker statement")
            return self.mark(d) + ";"
        return self.item(d)

    def item(self, d):
        self.on("nested item")
        self.inner += 1
        at = self.attr(4)
        vis = self.s.pick(["", "", "pub ", "pub(crate) ", "pub(in crate::a) "])
        k = self.k(13)
        marks, self.marks = self.marks, ()
        try:
            if k == 0:
                return "%s%s%sfn f<'a, T: %s, const N: usize>(x: %s, mut y: T) -> %s where T: 'a, for<'b> &'b T: Tr { %s %s }" % (
                    at, vis, self.s.pick(["", "const ", "async ", "unsafe extern \"C\" "]), self.bound(1), self.ty(1), self.ty(1), self.stmt(d - 1), self.tail(d - 1))
            if k == 1:
                return "%s%sstruct S<T = u8>(pub T, %s);" % (at, vis, self.ty(1))
            if k == 2:
                return "%s%senum E { A(%s), #[x] B { a: u8 }, C = 3 }" % (at, vis, self.ty(1))
            if k == 3:
                return "%s%sconst C: %s = %s;" % (at, vis, self.ty(1), self.expr(d - 1))
            if k == 4:
                return "%s%sstatic mut ST: u8 = %s;" % (at, vis, self.expr(d - 1))
            if k == 5:
                return "%suse a::{self, b as c, d::*};" % at
            if k == 6:
                return "%simpl<T> !Send for S<T> {}" % at if self.k(3) == 2 else "%simpl<T> Tr for S<T> where T: %s { type A = u8; fn m(&self) -> u8 { %s } }" % (at, self.bound(1), self.tail(d - 1))
            if k == 7:
                return "%s%strait Q<'a>: Sized { const K: u8 = 3; type A<'b>: Tr where Self: 'b; fn f(self: Box<Self>); }" % (at, vis)
            if k == 8:
                return "%smod m { pub fn z() { return; } }" % at
            if k == 9:
                return "macro_rules! mm { ($($x:expr),*) => { marker!($($x)*) }; () => {}; }"
            if k == 10:
                return "%s%stype Al<'a, T> = %s;" % (at, vis, self.ty(2))
            if k == 11:
                return "%sextern \"C\" { fn ex(_: u8, ...); static Z: u8; }" % at
            return "%s%sunion U { a: u8, b: [u8; 4] }" % (at, vis)
        finally:
            self.marks = marks


BLOCKISH = ("if ", "match ", "loop ", "while ", "for ", "unsafe ", "{", "'", "async ", "const ", "try ")
