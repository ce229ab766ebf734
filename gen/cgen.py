"""Generator of programs using #[auto_enum], each paired with its reference: the same program with every branch
value boxed by hand. All text is produced as pairs (annotated, reference)."""


class T:
    __slots__ = ("a", "r")
    def __init__(self, a, r=None):
        self.a, self.r = a, a if r is None else r


def j(*xs):
    """Concatenates strings and pairs."""
    return T("".join(x if isinstance(x, str) else x.a for x in xs), "".join(x if isinstance(x, str) else x.r for x in xs))


def jl(xs, sep=" "):
    return T(sep.join(x.a for x in xs), sep.join(x.r for x in xs))


AO, RO = T("", ""), None
def only_a(s):
    """Text which only the annotated side has (attributes)."""
    return T(s, "")


# name -> (attribute arguments, impl bounds, boxed type, box function, observer, needs all features)
PROF = {
    "it": ("Iterator", "Iterator<Item = i64>", "Bit", "bit", "o_it", False),
    "dbg": ("Debug", "std::fmt::Debug", "Bdbg", "bdbg", "o_dbg", False),
    "dsp": ("Display", "std::fmt::Display", "Bdsp", "bdsp", "o_dsp", False),
    "fut": ("Future", "std::future::Future<Output = i64>", "Bfut", "bfut", "o_fut", False),
    "read": ("Read", "std::io::Read", "Bread", "bread", "o_read", False),
    "err": ("Error", "std::error::Error", "Berr", "berr", "o_err", False),
    "dd": ("Debug, Display", "std::fmt::Debug + std::fmt::Display", "Bdd", "bdd", "o_dd", False),
    "dei": ("DoubleEndedIterator", "DoubleEndedIterator<Item = i64>", "Bdei", "bdei", "o_dei", False),
    "exact": ("ExactSizeIterator", "ExactSizeIterator<Item = i64>", "Bexact", "bexact", "o_exact", False),
    "deiexact": ("DoubleEndedIterator, ExactSizeIterator", "DoubleEndedIterator<Item = i64> + ExactSizeIterator", "Bdeiexact", "bdeiexact", "o_deiexact", False),
    "itdbg": ("Iterator, Debug", "Iterator<Item = i64> + std::fmt::Debug", "Bitdbg", "bitdbg", "o_itdbg", False),
    "deidbg": ("Debug, DoubleEndedIterator", "DoubleEndedIterator<Item = i64> + std::fmt::Debug", "Bdeidbg", "bdeidbg", "o_deidbg", False),
    "readdbg": ("io::Read, fmt::Debug", "std::io::Read + std::fmt::Debug", "Breaddbg", "breaddbg", "o_readdbg", False),
    "rw": ("Read, Write", "std::io::Read + std::io::Write", "Brw", "brw", "o_rw", False),
    "fn": ("Fn", "Fn(i64) -> i64", "Bfn", "bfn", "o_fn", True),
    "fnmut": ("FnMut", "FnMut(i64) -> i64", "Bfnmut", "bfnmut", "o_fnmut", True),
    "fnonce": ("FnOnce", "FnOnce(i64) -> i64", "Bfnonce", "bfnonce", "o_fnonce", True),
}
DEFAULT_PROFS = [p for p in PROF if not PROF[p][5]]
ALL_PROFS = list(PROF)
# std leaf makers: (text with {e}, reusable as one type)
MK = {
    "it": [("std::iter::once({e})", 1), ("[{e}, 4, 5].into_iter()", 1), ("(0..{e}).take(3)", 1), ("Some({e}).into_iter()", 1), ("std::iter::empty::<i64>()", 1),
           ("(0..{e}).map(move |x| evi({k}, x)).take(2)", 0), ("std::iter::once({e}).chain(std::iter::once({k}))", 1),
           ("std::iter::from_fn({{ let mut q = {e}; move || {{ q += 1; if q % 3 == 0 {{ return None; }} Some(evi({k}, q)) }} }}).take(3)", 0),
           ("Box::new(std::iter::once({e})) as Box<dyn Iterator<Item = i64>>", 1)],
    "dei": [("std::iter::once({e})", 1), ("[{e}, 4, 5].into_iter()", 1), ("[1, {e}].into_iter().rev()", 1), ("Some({e}).into_iter()", 1)],
    "exact": [("std::iter::once({e})", 1), ("[{e}, 4, 5].into_iter()", 1), ("[1, {e}].into_iter().map(move |x| evi({k}, x))", 0), ("Some({e}).into_iter()", 1)],
    "dbg": [("{e}", 1), ("Some({e})", 1), ("[{e}, 2]", 1), ("({e}, 'x')", 1), ("\"str\"", 1), ("({e}).to_string()", 1), ("Pd(format!(\"{{}}\", {e}))", 1)],
    "dsp": [("{e}", 1), ("({e}).to_string()", 1), ("\"str\"", 1), ("'c'", 1), ("std::num::Wrapping({e})", 1)],
    "fut": [("std::future::ready({e})", 1), ("async move {{ let q = {e}; if q % 2 == 0 {{ return evi({k}, q); }} q + l::<{k}>(2).await }}", 0),
            ("async move {{ l::<{k}>(1).await }}", 0)],
    "read": [("std::io::Cursor::new([({e}) as u8, 7, 8])", 1), ("&b\"abcdef\"[..]", 1), ("std::io::empty()", 1), ("std::io::Read::take(std::io::repeat(({e}) as u8), 5)", 1)],
    "err": [("std::fmt::Error", 1), ("\"x\".parse::<i64>().unwrap_err()", 1), ("std::io::Error::from(std::io::ErrorKind::NotFound)", 1), ("std::io::Error::new(std::io::ErrorKind::Other, ({e}).to_string())", 1)],
    "fn": [("move |x: i64| evi({k}, x) + 1", 0), ("{{ let q = {e}; move |x: i64| {{ if x > 3 {{ return evi({k}, x); }} x ^ q }} }}", 0), ("i64::abs", 1)],
}
MK["deiexact"] = [m for m in MK["dei"] if "rev" not in m[0]]
MK["dd"] = [("{e}", 1), ("({e}).to_string()", 1), ("\"str\"", 1), ("'c'", 1)]
MK["itdbg"] = [m for m in MK["it"] if "move" not in m[0] and "Box" not in m[0]]
MK["deidbg"] = MK["dei"]
MK["readdbg"] = MK["read"][:3]
MK["rw"] = []
MK["fnmut"] = MK["fn"] + [("{{ let mut q = {e}; move |x: i64| {{ q += x; evi({k}, q % 1000) }} }}", 0)]
MK["fnonce"] = MK["fnmut"]


class Attr:
    """One #[auto_enum] under construction."""
    def __init__(self, prof, marker=None):
        self.prof, self.marker, self.count = prof, marker, 0
        self.args, self.imp, self.bty, self.bx, self.obs, _ = PROF[prof]
    def wrap(self, x):
        self.count += 1
        return T(x.a, "%s(%s)" % (self.bx, x.r))


class Sc:
    """What may be used at a position."""
    def __init__(self, ret=None, loops=(), vars=(), muts=(), attr=None, retattr=None, marks=(), tryattr=None, asy=False, nomark=(), caps=()):
        self.nomark, self.caps = nomark, caps
        self.ret, self.loops, self.vars, self.muts = ret, loops, vars, muts
        self.attr, self.retattr, self.marks, self.tryattr, self.asy = attr, retattr, marks, tryattr, asy
    def but(self, **k):
        s = Sc(self.ret, self.loops, self.vars, self.muts, self.attr, self.retattr, self.marks, self.tryattr, self.asy, self.nomark, self.caps)
        for a, b in k.items():
            setattr(s, a, b)
        return s
    def closed(self):
        """Same variables, no way to leave."""
        return self.but(ret=None, loops=(), attr=None, retattr=None, marks=(), tryattr=None, asy=False)


SWARM = ["loop", "while", "whilelet", "for", "foract", "loopx", "lblock", "iflet", "clos", "asyncx", "matchact", "letelse", "cf", "exit", "block", "paren", "unsafe", "method", "single", "stmts",
         "match", "if", "brk", "brkm", "cont", "loops", "lbs", "closs", "matchs", "ifs", "chain", "opt", "tup", "mac", "item", "pathmac", "actc", "assign", "guard"]


class G:
    def __init__(self, src, w=None, size=40):
        self.s, self.n, self.fuel, self.labels = src, 0, size, set()
        self.w = w or {}
        self.items = []
        self.tries = 0
        self.childprofs = None
        self.mnames = []
        # swarm: some alternatives are much more likely in this program
        for _ in range(max(0, self.s.draw(6) - 2)):
            n = SWARM[self.s.draw(len(SWARM))]
            self.w.setdefault(n, 9)

    # ------------------------------------------------------------ helpers
    def k(self):
        self.n += 1
        return self.n

    def on(self, label):
        self.labels.add(label)

    def alt(self, *items):
        """items: (weight, name[, condition]). Returns a name; the first one when the budget is spent."""
        items = [(self.w.get(i[1], i[0]), i[1]) for i in items if len(i) < 3 or i[2]]
        items = [i for i in items if i[0]] or items[:1]
        self.fuel -= 1
        if self.fuel <= 0 or len(items) == 1:
            return items[0][1]
        return self.s.weighted(items)

    def few(self, n):
        """0..n-1, small when the budget is spent."""
        if self.fuel <= 0:
            return 0
        return self.s.draw(n)

    # ------------------------------------------------------------ i64 expressions
    def lit(self):
        return str(self.few(10))

    def iexpr(self, sc, d=2):
        t = sc.tryattr is not None
        a = self.alt((4, "d"), (2, "lit"), (3, "var", sc.vars), (3 if d > 0 else 1, "evi"), (2 if d > 0 else 0, "add"), (1 if d > 0 else 0, "paren"), (1, "ifx", d > 0), (1, "matchx", d > 0),
                     (1, "blockx", d > 0), (1, "loopx", d > 0), (1, "clos", d > 0), (1, "evmx"), (1, "asyncx", d > 0), (2, "iflet", d > 0),
                     (1, "lblock", d > 0), (1, "misc", d > 0), (3 if not t else 1, "exit", d > 0 and self.can_act(sc)), (9, "try", t), (2, "tryown", t and d > 0), (1, "unsafex", d > 0),
                     (2, "cf", d > 0 and self.can_act(sc)), (1, "innertry", d > 0), (1, "pathmac"))
        if a == "pathmac":
            ns = [A.marker for A in sc.marks + (sc.attr, sc.retattr, sc.tryattr) if A is not None and A.marker] or ["marker"]
            self.on("macro behind a path named like the marker")
            o, c = [("(", ")"), ("[", "]"), (" { ", " }")][self.few(3)]
            # parenthesised: syn cannot parse `break 'label ::path!(..)`
            p = ["pm::%s!%s%s", "sup::pm::%s!%s%s", "(::sup::pm::%s!%s%s)"][self.few(3)]
            return T(p % (ns[self.few(len(ns))], o, "%d, %s%s" % (self.k(), self.iexpr(sc.closed(), 0).a, c)))
        if a == "d":
            return T("d(%d, %d) as i64" % (self.k(), 2 + self.few(3)))
        if a == "lit":
            return T(self.lit() + "i64")
        if a == "var":
            return T(sc.vars[self.few(len(sc.vars))])
        if a == "evi":
            return j("evi(%d, " % self.k(), self.iexpr(sc, d - 1), ")")
        if a == "add":
            return j("add(", self.iexpr(sc, d - 1), ", ", self.iexpr(sc, d - 1), ")")
        if a == "paren":
            return j("(", self.iexpr(sc, d - 1), ")")
        if a == "ifx":
            return j("(if ", self.cond(sc, d - 1), " { ", self.iexpr(sc, d - 1), " } else { ", self.iexpr(sc, d - 1), " })")
        if a == "matchx":
            return j("(match ", self.scrut(sc, d - 1), " { 0 => ", self.iexpr(sc, d - 1), ", n if n > 2 => n, _ => { ", self.stmt(sc, d - 1)[0], " ", self.iexpr(sc, d - 1), " } })")
        if a == "blockx":
            st, s2 = self.stmts(sc, 1 + self.few(2), d - 1)
            return j("{ ", st, " ", self.iexpr(s2, d - 1), " }")
        if a == "unsafex":
            return j("unsafe { ", self.iexpr(sc, d - 1), " }")
        if a == "loopx":
            lab = self.label(sc)
            s2 = sc.but(loops=((lab, "i", None),) + sc.loops)
            st, s3 = self.stmts(s2, 1, d - 1)
            self.on("inner loop value")
            return j("(", (lab + ": " if lab else ""), "loop { tick(); ", st, " ", "if ", self.cond(s3, 0), " { break ", (lab + " " if lab and self.few(2) else ""), self.brk(self.iexpr(s3, d - 1)), "; } break ", self.brk(self.iexpr(s3, 0)), "; })")
        if a == "clos":
            self.on("inner closure with return")
            s2 = sc.closed().but(ret="i64")
            st, s3 = self.stmts(s2, self.few(2), d - 1)
            mv = ["", "move "][self.few(2)]
            return j("(", mv, "|x: i64| { if x % 2 == 0 { return ", self.iexpr(s2, d - 1), "; } ", st, " x })(", self.iexpr(sc, d - 1), ")")
        if a == "evmx":
            return j("evm!(%d, " % self.k(), self.iexpr(sc.closed(), 0), ")")
        if a == "asyncx":
            self.on("async block with return")
            s2 = sc.closed().but(ret="i64", asy=True)
            st, s3 = self.stmts(s2, self.few(2), d - 1)
            return j("block_on(async { if ", self.cond(s2, 0), " { return ", self.iexpr(s2, d - 1), "; } ", st, " l::<%d>(1).await })" % self.k())
        if a == "iflet":
            v = "v%d" % self.k()
            els = self.tail_or_act(sc, d - 1)
            return j("(if let Some(%s) = " % v, self.optx(sc, d - 1), " { ", self.iexpr(sc.but(vars=(v,) + sc.vars), d - 1), " } else { ", els, " })")
        if a == "lblock":
            lab = "'b%d" % self.k()
            s2 = sc.but(loops=((lab, "b", None),) + sc.loops)
            self.on("labelled block")
            return j("(", lab, ": { if ", self.cond(s2, 0), " { break ", lab, " ", self.brk(self.iexpr(s2, d - 1)), "; } ", self.iexpr(s2, d - 1), " })")
        if a == "misc":
            e = self.iexpr(sc, d - 1)
            k = self.few(9)
            return [j("[", e, ", 3][0]"), j("(", e, ", 3).0"), j("(Pt { x: ", e, ", y: 1 }).x"), j("*&(", e, ")"), j("((", e, ") as i32 as i64)"),
                    j("-(", e, ")"), j("Some(", e, ").map_or(0, |x| x)"), j("id::<i64>(", e, ")"), j("(0..", e, ").take(4).fold(0, |a, x| { if x == 2 { return a; } a + x })")][k]
        if a == "exit":
            # a branch of a plain conditional that leaves
            return j("(if ", self.cond(sc, 0), " { ", self.act(sc, d - 1), " } else { ", self.iexpr(sc, d - 1), " })")
        if a == "cf":
            # leaving in operand position
            self.on("exit in call argument")
            return j("(if ", self.cond(sc, 0), " { id::<i64>(", self.act(sc, d - 1), ") } else { ", self.iexpr(sc, d - 1), " })")
        if a == "try":
            return self.tryx(sc, d)
        if a == "tryown":
            return self.tryown(sc, d)
        if a == "innertry":
            k = self.k()
            return j("(|| { let q = opt(%d)?; if q > 7 { return None; } Some(q) })().unwrap_or(" % k, self.iexpr(sc, d - 1), ")")
        raise AssertionError(a)

    def tryx(self, sc, d):
        A = sc.tryattr
        k = self.k()
        which = self.few(5)
        e = T("r::<%d>(%d)" % (k, k))
        if which == 1 and d > 0:
            e = j("(if ", self.cond(sc, 0), " { Ok(", self.iexpr(sc, d - 1), ") } else { Err(l::<%d>(1)) })" % k)
        elif which == 2 and d > 0:
            e = j("Ok::<i64, L<%d>>(" % k, self.iexpr(sc, d - 1), ")")
        elif which == 3 and d > 0:
            e = j("{ ", self.stmt(sc, d - 1)[0], " r::<%d>(%d) }" % (k, k))
        elif which == 4:
            e = T("r::<%d>(%d).map_err(|e| e)" % (k, k))
        A.count += 1
        self.tries += 1
        self.on("?")
        p = e.a if not e.a.startswith("{") else "(" + e.a + ")"
        return T("(%s?)" % p, "(match %s { Ok(v) => v, Err(e) => return Err(%s(e)) })" % (e.r if not e.r.startswith("{") else "(" + e.r + ")", A.bx))

    def tryown(self, sc, d):
        """? that belong to other bodies."""
        k = self.k()
        a = self.few(4)
        self.on("? of another body")
        if a == 0:
            return T("(|| -> Result<i64, L<%d>> { let q = r::<%d>(%d)?; if q > 3 { return Err(l::<%d>(q)); } Ok(q) })().unwrap_or(5)" % (k, k, k, k))
        if a == 1:
            return T("block_on(async { let q = r::<%d>(%d)?; if q > 3 { return Err(l::<%d>(q)); } Ok::<i64, L<%d>>(q) }).unwrap_or(6)" % (k, k, k, k))
        if a == 2:
            return T("{ fn h(k: u64) -> Result<i64, L<%d>> { let q = r::<%d>(k)?; Ok(q + 1) } h(%d).unwrap_or(3) }" % (k, k, k))
        return T("{ let t: Result<i64, L<%d>> = try { r::<%d>(%d)? + 1 }; t.unwrap_or(4) }" % (k, k, k))

    def brk(self, x):
        """A break/return operand must not start with a label or an ambiguous block."""
        return x

    def scrut(self, sc, d):
        return self.iexpr(sc, d)

    def optx(self, sc, d):
        if d > 0 and self.few(3) == 2:
            return j("Some(", self.iexpr(sc, d - 1), ").filter(|x| *x != 1)")
        return T("opt(%d)" % self.k())

    def cond(self, sc, d=1):
        a = self.alt((5, "db"), (1, "cmp", d > 0), (1, "not", d > 0), (1, "and", d > 0), (1, "matches", d > 0), (1, "actc", d > 0 and self.can_act(sc)))
        if a == "db":
            return T("db(%d)" % self.k())
        if a == "cmp":
            return j("id(", self.iexpr(sc, d - 1), ") > 1")
        if a == "not":
            return j("!", self.cond(sc, 0))
        if a == "and":
            return j(self.cond(sc, 0), [" && ", " || "][self.few(2)], self.cond(sc, 0))
        if a == "matches":
            return j("matches!(opt(%d), Some(x) if x > 2)" % self.k())
        self.on("exit in condition")
        return j("id(", self.cond(sc, 0), ") && { if ", self.cond(sc, 0), " { ", self.act(sc, 0), " } true }")

    def tail_or_act(self, sc, d):
        if self.can_act(sc) and self.few(2):
            return self.act(sc, d)
        return self.iexpr(sc, d)

    # ------------------------------------------------------------ leaving
    def label(self, sc):
        """A loop label or ''."""
        a = self.few(4)
        if a <= 1:
            return ""
        outer = [l for l, k, _ in sc.loops if l]
        if a == 3 and outer and self.few(2):
            self.on("shadowed label")
            return outer[self.few(len(outer))]
        return "'l%d" % self.k()

    def targets(self, sc):
        """Possible (text, kind, attr, unlabelled) of break, and texts of continue."""
        br, co, seen = [], [], set()
        for i, (lab, kind, at) in enumerate(sc.loops):
            if i == 0 and kind != "b":
                br.append(("", kind, at))
                co.append("")
            if lab and lab not in seen:
                seen.add(lab)
                br.append((lab, kind, at))
                if kind != "b":
                    co.append(lab)
        return br, co

    def can_act(self, sc):
        return bool(sc.ret or sc.loops)

    def act(self, sc, d=1, exits=None):
        """An expression that leaves (type !)."""
        br, co = self.targets(sc)
        r = sc.ret
        many = [b for b in br if b[1] == "m"]
        a = self.alt((6, "ret", r), (4, "brk", br), (4, "brkm", many), (2, "cont", co), (1, "panic"), (1, "unreach"), (1, "div"))
        if a == "ret":
            return self.ret(sc, d)
        if a in ("brk", "brkm"):
            c = br if a == "brk" else many
            lab, kind, at = c[self.few(len(c))]
            sp = (" " + lab if lab else "")
            if kind == "u":
                return T("break" + sp)
            if kind in ("i", "b"):
                return j("break", sp, " ", self.iexpr(sc, d - 1))
            if lab and sc.loops[0][0] != lab:
                self.on("break out of an inner loop")
            return j("break", sp, " ", self.value(sc, at, d - 1))
        if a == "cont":
            lab = co[self.few(len(co))]
            return T("continue" + (" " + lab if lab else ""))
        if a == "panic":
            return T(["panic!(\"p%d\")", "std::panic!(\"p%d\")", "core::panic!(\"p%d {}\", 3)"][self.few(3)] % self.k())
        if a == "unreach":
            return T(["unreachable!(\"u%d\")", "std::unreachable!(\"u%d\")", "core::unreachable!(\"u%d\")"][self.few(3)] % self.k())
        return T("diverge(%d)" % self.k())

    def ret(self, sc, d):
        r = sc.ret
        if r == "wrap":
            self.on("return value")
            return j("return ", self.value(sc, sc.retattr, d - 1))
        if r == "unit":
            return T("return")
        if r == "opt":
            return [j("return Some(", self.iexpr(sc, d - 1), ")"), T("return None")][self.few(2)]
        if r == "res":
            return [j("return Ok(", self.iexpr(sc, d - 1), ")"), j("return Err(", self.iexpr(sc, d - 1), ")")][self.few(2)]
        if r == "try":
            if self.few(2):
                A = sc.tryattr
                if not A.marker or A in sc.nomark:
                    return j("return Ok(", self.iexpr(sc, d - 1), ")")
                m = self.msingle(sc.but(attr=A), A, d - 1)
                return j("return Err(", m, ")")
            return j("return Ok(", self.iexpr(sc, d - 1), ")")
        return j("return ", self.iexpr(sc, d - 1))

    def value(self, sc, at, d):
        """A value handed out by return or break: wrapped by position or by a marker."""
        if at.prof == "dbg" and self.few(12) == 11:
            self.on("bare return or break")
            at.count += 1
            return T("", "bdbg(())")
        if at.marker and at not in sc.nomark and self.few(self.w.get("markdiv", 6)) == 1:
            return self.msingle(sc, at, d)
        return at.wrap(self.single(sc, d, at))

    def msingle(self, sc, at, d):
        """A value for at's marker: exits within it belong to whom they would belong outside of it."""
        return self.marker(sc, at, self.single(sc, max(d, 0), at))

    def marker(self, sc, at, x):
        """at's marker around x. x: unwrapped pair."""
        o, c = [("(", ")"), ("[", "]"), (" { ", " }")][self.few(3)]
        self.on("marker")
        w = at.wrap(x)
        return T("%s!%s%s%s" % (at.marker, o, w.a, c), w.r)

    # ------------------------------------------------------------ one branch value
    def mk(self, sc, at, d, uniq=True):
        """A maker: function from scope to a value; all its values have one type."""
        ms = [m for m in MK[at.prof] if uniq or m[1]]
        n = self.few(3)
        if n == 2 and ms and not self.w.get("nostd"):
            t = ms[self.few(len(ms))][0]
            self.on("std leaf")
            def f(s, dd):
                if "{e}" not in t:
                    return T(t.replace("{k}", str(self.k())))
                e = self.iexpr(s if "move" not in t and "async" not in t else s.closed(), dd) if "format!" not in t else self.iexpr(s.closed(), 0)
                k = str(self.k())
                return T(t.format(e=e.a, k=k), t.format(e=e.r, k=k))
            return f
        k = self.k()
        if sc.caps and self.few(2):
            self.on("leaf captures a parameter")
            c = sc.caps[self.few(len(sc.caps))]
            return lambda s, dd: j("h::<%d, _>(" % k, self.iexpr(s, dd), ", %s)" % c)
        return lambda s, dd: j("l::<%d>(" % k, self.iexpr(s, dd), ")")

    def single(self, sc, d, at):
        """An expression of one type, whatever control flow is inside it."""
        a = self.alt((6, "leaf"), (2, "block", d > 0), (1, "ifs", d > 0), (1, "matchs", d > 0), (2, "matchact", d > 0 and self.can_act(sc)), (1, "closs", d > 0), (1, "loops", d > 0),
                     (1, "id"), (1, "paren"), (1, "evms", d > 0), (1, "unsafes", d > 0), (1, "lbs", d > 0), (1, "lets", d > 0))
        if a == "leaf":
            return self.mk(sc, at, d)(sc, d - 1)
        if a == "id":
            return j("id(", self.mk(sc, at, d)(sc, d - 1), ")")
        if a == "paren":
            return j("(", self.single(sc, d - 1, at), ")")
        if a == "block":
            st, s2 = self.stmts(sc, 1 + self.few(2), d - 1)
            return j("{ ", st, " ", self.single(s2, d - 1, at), " }")
        if a == "lets":
            v = "t%d" % self.k()
            return j("{ let %s = " % v, self.single(sc, d - 1, at), "; ev(%d); %s }" % (self.k(), v))
        if a == "unsafes":
            return j("unsafe { ", self.single(sc, d - 1, at), " }")
        m = self.mk(sc, at, d, uniq=False)
        self.on("inner control flow in one branch")
        if a == "ifs":
            els = m(sc, d - 1) if not (self.can_act(sc) and self.few(3) == 1) else self.act(sc, d - 1)
            return j("if ", self.cond(sc, d - 1), " { ", m(sc, d - 1), " } else { ", els, " }")
        if a == "matchs":
            return j("match ", self.scrut(sc, d - 1), " { 0 => ", m(sc, d - 1), ", 1 | 2 => ", m(sc, 0), ", n if n < 0 => panic!(\"neg\"), _ => { ", m(sc, d - 1), " } }")
        if a == "matchact":
            v = "v%d" % self.k()
            return j("match ", self.optx(sc, d - 1), " { Some(%s) => " % v, m(sc.but(vars=(v,) + sc.vars), d - 1), ", None => ", self.act(sc, d - 1), " }")
        if a == "closs":
            s2 = sc.closed().but(ret=None)
            return j("(|| { if ", self.cond(s2, 0), " { return ", m(s2, 0), "; } ", m(s2, d - 1), " })()")
        if a == "loops":
            lab = self.label(sc)
            # breaks of this loop are written here only
            s3 = sc.but(loops=(("", "b", None),) + tuple(x for x in sc.loops if x[0] and x[0] != lab))
            return j("(", (lab + ": " if lab else ""), "loop { tick(); ", self.stmt(s3, d - 1)[0], " if db(%d) { break " % self.k(), (lab + " " if lab else ""), m(s3, 0), "; } ev(%d); })" % self.k())
        if a == "evms":
            return j("evm!(%d, " % self.k(), m(sc.closed(), 0), ")")
        if a == "lbs":
            lab = "'b%d" % self.k()
            s2 = sc.but(loops=((lab, "b", None),) + sc.loops)
            s3 = sc.but(loops=(("", "b", None),) + sc.loops)
            return j("(", lab, ": { if ", self.cond(s3, 0), " { break ", lab, " ", m(s3, d - 1), "; } ", m(s3, d - 1), " })")
        raise AssertionError(a)

    # ------------------------------------------------------------ statements
    def stmts(self, sc, n, d):
        out = []
        for _ in range(n):
            t, sc = self.stmt(sc, d)
            out.append(t)
        return jl(out), sc

    def stmt(self, sc, d):
        x = self.can_act(sc)
        a = self.alt((3, "ev"), (4, "let"), (2, "letmut"), (2, "assign", sc.muts), (2, "guard"), (4, "ifact", x), (3, "letelse", x), (2, "if", d > 0), (1, "iflet", d > 0),
                     (1, "for", d > 0), (1, "while", d > 0), (1, "whilelet", d > 0), (1, "loop", d > 0), (1, "match", d > 0), (2, "matchact", x and d > 0), (1, "clos", d > 0), (1, "item"),
                     (1, "mac"), (1, "async", d > 0), (1, "tuple", d > 0), (1, "under"), (1, "attr"), (1, "block", d > 0), (1, "foract", d > 0 and x), (1, "drop"), (self.w.get("child", 0), "child", d > 0))
        if a == "ev":
            return T("ev(%d);" % self.k()), sc
        if a == "child":
            return self.child(sc, d), sc
        if a == "let":
            v = "v%d" % self.k()
            return j("let %s = " % v, self.iexpr(sc, d), ";"), sc.but(vars=(v,) + sc.vars)
        if a == "letmut":
            v = "m%d" % self.k()
            return j("let mut %s: i64 = " % v, self.iexpr(sc, d), ";"), sc.but(vars=(v,) + sc.vars, muts=(v,) + sc.muts)
        if a == "assign":
            m = sc.muts[self.few(len(sc.muts))]
            return j(m, " = ", self.iexpr(sc, d), ";"), sc
        if a == "guard":
            k = self.k()
            self.on("drop guard")
            return j("let _g%d = l::<%d>(" % (k, k), self.iexpr(sc, d - 1), ");"), sc
        if a == "drop":
            k = self.k()
            return j("drop(l::<%d>(" % k, self.iexpr(sc, d - 1), "));"), sc
        if a == "ifact":
            semi = ["; ", ""][self.few(2)]
            return j("if ", self.cond(sc, d), " { ", self.act(sc, d), semi, "}"), sc
        if a == "letelse":
            v = "v%d" % self.k()
            self.on("let-else exit")
            return j("let Some(%s) = " % v, self.optx(sc, d - 1), " else { ", self.act(sc, d), " };"), sc.but(vars=(v,) + sc.vars)
        if a == "if":
            st, _ = self.stmts(sc, 1 + self.few(2), d - 1)
            if self.few(2):
                st2, _ = self.stmts(sc, 1, d - 1)
                return j("if ", self.cond(sc, d - 1), " { ", st, " } else { ", st2, " }"), sc
            return j("if ", self.cond(sc, d - 1), " { ", st, " }"), sc
        if a == "iflet":
            v = "v%d" % self.k()
            st, _ = self.stmts(sc.but(vars=(v,) + sc.vars), 1, d - 1)
            return j("if let Some(%s) = " % v, self.optx(sc, d - 1), " { ", st, " }"), sc
        if a == "for":
            lab = self.label(sc)
            v = "v%d" % self.k()
            st, _ = self.stmts(sc.but(loops=((lab, "u", None),) + sc.loops, vars=(v,) + sc.vars), 1 + self.few(2), d - 1)
            self.on("for loop")
            return j((lab + ": " if lab else ""), "for %s in 0..(" % v, self.iexpr(sc, 0), ") % 3 { ", st, " }"), sc
        if a == "foract":
            lab = self.label(sc)
            v = "v%d" % self.k()
            st, _ = self.stmts(sc.but(loops=((lab, "u", None),) + sc.loops, vars=(v,) + sc.vars), 1, d - 1)
            self.on("exit in the iterator of a for loop")
            return j((lab + ": " if lab else ""), "for %s in 0..id::<i64>(if " % v, self.cond(sc, 0), " { ", self.act(sc, d - 1), " } else { 2 }) { ", st, " }"), sc
        if a == "while":
            lab = self.label(sc)
            st, _ = self.stmts(sc.but(loops=((lab, "u", None),) + sc.loops), 1 + self.few(2), d - 1)
            return j((lab + ": " if lab else ""), "while ", self.cond(sc.closed(), 0), " { tick(); ", st, " }"), sc
        if a == "whilelet":
            lab = self.label(sc)
            v = "v%d" % self.k()
            st, _ = self.stmts(sc.but(loops=((lab, "u", None),) + sc.loops, vars=(v,) + sc.vars), 1 + self.few(2), d - 1)
            return j((lab + ": " if lab else ""), "while let Some(%s) = opt(%d) { " % (v, self.k()), st, " }"), sc
        if a == "loop":
            lab = self.label(sc)
            st, _ = self.stmts(sc.but(loops=((lab, "u", None),) + sc.loops), 1 + self.few(2), d - 1)
            return j((lab + ": " if lab else ""), "loop { tick(); ", st, " break; }"), sc
        if a == "match":
            st, _ = self.stmts(sc, 1, d - 1)
            return j("match ", self.scrut(sc, d - 1), " { 0 => { ", st, " } n if n > 1 => ev(%d), _ => {} }" % self.k()), sc
        if a == "matchact":
            v, k = "v%d" % self.k(), self.k()
            return j("let %s = match " % v, self.scrut(sc, d - 1), " { n @ 0..=1 => n, 2 | 3 => ", self.act(sc, d - 1), ", _ => { ev(%d); " % k, self.act(sc, 0), " } };"), sc.but(vars=(v,) + sc.vars)
        if a == "clos":
            v = "c%d" % self.k()
            s2 = sc.closed().but(ret="i64")
            self.on("inner closure with return")
            return j("let %s = |x: i64| -> i64 { if x > 1 { return " % v, self.iexpr(s2, d - 1), "; } x }; ev(%s(" % v, self.iexpr(sc, d - 1), ") as u64 % 97);"), sc
        if a == "item":
            k = self.k()
            self.on("nested item")
            which = self.few(4)
            return [T("fn h%d(x: i64) -> i64 { if x > 1 { return evi(%d, x); } x + 1 } evi(%d, h%d(%d));" % (k, k, k, k, self.few(4))),
                    T("const C%d: i64 = 3; evi(%d, C%d);" % (k, k, k)),
                    T("struct S%d(i64); impl S%d { fn g(&self) -> i64 { return self.0; } } evi(%d, S%d(4).g());" % (k, k, k, k)),
                    T("fn h%d() -> impl Iterator<Item = i64> { return std::iter::once(5); } o_it(h%d());" % (k, k))][which], sc
        if a == "mac":
            k = self.k()
            return [T("evm!(%d);" % k), T("toks!(return 3; break => match);"), T("evm! { %d, ev(%d); }" % (k, k)), T("println![\"{}\", 1];".replace("println!", "evm!").replace("\"{}\", 1", str(k)))][self.few(4)], sc
        if a == "async":
            k = self.k()
            self.on("async block with return")
            return T("block_on(async { if db(%d) { return; } ev(%d); l::<%d>(1).await; });" % (k, k, k)), sc
        if a == "tuple":
            v, w = "v%d" % self.k(), "v%d" % self.k()
            return j("let (%s, mut %s) = (" % (v, w), self.iexpr(sc, d - 1), ", ", self.iexpr(sc, d - 1), ");"), sc.but(vars=(v, w) + sc.vars, muts=(w,) + sc.muts)
        if a == "under":
            return j("let _ = ", self.iexpr(sc, d - 1), ";"), sc
        if a == "attr":
            v = "v%d" % self.k()
            at = ["#[allow(unused)] ", "#[cfg(not(any()))] ", "#[cfg_attr(any(), foo)] "][self.few(3)]
            return j(at, "let %s = " % v, self.iexpr(sc, 0), ";"), sc.but(vars=(v,) + sc.vars)
        if a == "block":
            st, _ = self.stmts(sc, 1 + self.few(2), d - 1)
            return j("{ ", st, " }"), sc
        raise AssertionError(a)

    # ------------------------------------------------------------ branching values
    def branch(self, sc, d, need, where):
        """The body of one branch at position where ('arm' or 'block'): returns (attribute, body); for 'block' the body is
        the inside of a block. need: must be a plain wrapped value."""
        at = sc.attr
        if need:
            k = "single"
        else:
            k = self.alt((6, "single"), (2, "stmts"), (self.w.get("div", 1), "div"), (1, "nested", d > 0), (1, "nestedtail", d > 0), (1, "nestedlet", d > 0),
                         (self.w.get("mark", 1), "mark", at.marker and at not in sc.nomark), (self.w.get("never", 1) if self.w.get("never", 1) else 0, "never", self.w.get("never", 1)))
        none = only_a("")
        if k == "single":
            if at.prof == "dbg" and self.few(6) == 5:
                # a unit value without an expression
                self.on("branch without a tail expression")
                at.count += 1
                st, s2 = self.stmts(sc, self.few(2), d - 1)
                st = j(st, [" ev(%d);", " let _u = d(%d, 3);", " if db(%d) { ev(1); };", " { ev(%d); }", " let _ = { ev(%d); };"][self.few(5)] % self.k())
                b = T(st.a, st.r + " bdbg(())")
                return none, b if where == "block" else j("{ ", b, " }")
            return none, at.wrap(self.single(sc, d, at))
        if k == "stmts":
            st, s2 = self.stmts(sc, 1 + self.few(2), d - 1)
            x = at.wrap(self.single(s2, d - 1, at))
            b = j(st, " ", x)
            return none, b if where == "block" else j("{ ", b, " }")
        if k == "mark":
            return none, self.msingle(sc, at, d)
        if k == "div":
            self.on("diverging branch")
            return none, self.diverging(sc, d, where)
        if k == "never":
            self.on("#[never]")
            b = self.neverx(sc, d)
            if where == "arm" and self.few(2):
                return only_a("#[never] "), b
            if where == "block" or self.few(2):
                return none, j(only_a("#[never] "), b)
            return none, j("{ ev(%d); " % self.k(), only_a("#[never] "), b, " }")
        self.on("#[nested]")
        if k == "nested" and where == "arm":
            return only_a("#[nested] "), self.multi(sc, d - 1, 0)
        if k in ("nested", "nestedtail"):
            st, s2 = self.stmts(sc, self.few(3), d - 1)
            b = j(st, " ", only_a("#[nested] "), self.multi(s2, d - 1, 0, tail=True))
            return none, b if where == "block" else j("{ ", b, " }")
        v = "n%d" % self.k()
        st, s2 = self.stmts(sc, self.few(2), d - 1)
        b = j(st, " ", only_a("#[nested] "), "let %s = " % v, self.multi(s2, d - 1, 1), "; ev(%d); " % self.k(), [T(v), T("(%s)" % v), j(v, self.idm(s2, 1)), T("{ %s }" % v)][self.few(4)])
        self.on("#[nested] let")
        return none, b if where == "block" else j("{ ", b, " }")

    def neverx(self, sc, d):
        """Something that diverges without looking so."""
        k = self.k()
        c = [T("diverge(%d)" % k), T("todo!(\"t%d\")" % k), T("unimplemented!()"), T("match diverge(%d) {}" % k)]
        if self.can_act(sc) and self.few(3) == 2:
            self.on("exit inside #[never]")
            return j("if db(%d) { diverge(%d) } else { " % (k, k), self.plain_act(sc), " }")
        return c[self.few(4)]

    def plain_act(self, sc):
        """An exit without a value of the enum: nothing inside a #[never] node is rewritten by the loop visitor."""
        _, co = self.targets(sc)
        if co:
            lab = co[self.few(len(co))]
            return T("continue" + (" " + lab if lab else ""))
        return T("diverge(%d)" % self.k())

    def diverging(self, sc, d, where):
        """A body that is_unreachable sees through."""
        k = self.k()
        a = self.alt((4, "plain"), (2, "semi"), (2, "stmts"), (1, "match", d > 0), (1, "let"), (1, "paren"), (1, "item"), (1, "method"), (1, "unsafe"), (1, "letmac"))
        base = self.act2(sc, d, a in ("plain", "stmts", "paren", "unsafe"))
        if a == "plain":
            return base
        body = None
        if a == "semi":
            body = j(base, ";")
        elif a == "stmts":
            st, s2 = self.stmts(sc, 1, d - 1)
            body = j(st, " ", base)
        elif a == "match":
            arm = [j("_ => ", self.act2(sc, 0)), j("1 => ", self.act2(sc, 0), ", _ => { ", self.act2(sc, 0, False), "; }"), j(only_a("#[never] "), "0 => ", self.neverx(sc.but(loops=(), ret=None), 0), ", _ => ", self.act2(sc, 0))][self.few(3)]
            body = j("match d(%d, 2) { " % k, arm, " }")
            self.on("match whose arms all diverge")
            if where == "arm" and self.few(2):
                return body
        elif a == "let":
            body = j("let x%d: i64 = " % k, base, ";")
        elif a == "letmac":
            body = T("let x%d: i64 = unreachable!();" % k)
        elif a == "paren":
            return j("(", base, ")")
        elif a == "item":
            body = j(base, "; fn h%d() {}" % k)
            self.on("branch ending in an item")
        elif a == "method":
            return T("panic!(\"q%d\").idm()" % k)
        elif a == "unsafe":
            b = j("unsafe { ", base, " }")
            return b
        return body if where == "block" else j("{ ", body, " }")

    def act2(self, sc, d, tail=True):
        """Exits which is_unreachable recognises."""
        if tail and sc.ret == "opt" and self.few(3) == 1:
            self.on("None?")
            return T(["None?", "std::option::Option::None?", "core::option::Option::None?", "None::<_>?"][self.few(4)])
        if tail and sc.ret == "res" and self.few(3) == 1:
            self.on("Err(..)?")
            e = self.iexpr(sc.closed(), d - 1)
            return j(["Err(", "std::result::Result::Err(", "core::result::Result::Err("][self.few(3)], e, ")?")
        for _ in range(2):
            x = self.act(sc, d)
            if not x.a.startswith("diverge"):
                return x
        return T("panic!(\"z%d\")" % self.k())

    def idm(self, sc, d):
        """A method call chain that keeps value and type."""
        k = self.few(4)
        if k == 1:
            return j(".ida(", self.iexpr(sc, d - 1), ")")
        if k == 2:
            return j(".idm().ida(", self.iexpr(sc, 0), ").idm()")
        return T(".idm()")

    def multi(self, sc, d, need, tail=False):
        """An expression that branches into values of sc.attr."""
        a = self.alt((4, "match"), (4, "if"), (self.w.get("loop", 3), "loop"), (1, "lblk", d > 0 and sc.attr.marker and sc.attr not in sc.nomark), (1, "block", d > 0), (1, "paren", d > 0), (1, "unsafe", d > 0), (1, "method", d > 0))
        if a == "match":
            return self.mmatch(sc, d, need)
        if a == "if":
            return self.mif(sc, d, need)
        if a == "loop":
            return self.mloop(sc, d, need)
        self.on("recursion through " + a)
        if a == "lblk":
            lab = "'b%d" % self.k()
            s2 = sc.but(loops=(("", "b", None),) + tuple(x for x in sc.loops if x[0]))
            return j(lab, ": { if ", self.cond(s2, 0), " { break ", lab, " ", self.msingle(s2, sc.attr, d - 1), "; } ", self.multi(s2, d - 1, need), " }")
        if a == "block":
            st, s2 = self.stmts(sc, self.few(3), d - 1)
            return j("{ ", st, " ", self.multi(s2, d - 1, need), " }")
        if a == "unsafe":
            st, s2 = self.stmts(sc, self.few(2), d - 1)
            return j("unsafe { ", st, " ", self.multi(s2, d - 1, need), " }")
        if a == "paren":
            return j("(", self.multi(sc, d - 1, need), ")")
        return j("(", self.multi(sc, d - 1, max(need, 1)), ")", self.idm(sc, d))

    def mmatch(self, sc, d, need):
        n = max(need, 2) + self.few(3)
        sort = self.alt((3, "int"), (2, "opt"), (1, "tup"))
        arms = []
        many = self.s.draw(60) == 59
        if many:
            n = self.s.int(12, 48)
            d, sort = 1, "int"
            self.on("more than 10 branches")
        if sort == "int":
            head = self.scrut(sc, d - 1) if not many else T("(d(%d, %d) as i64)" % (self.k(), n))
            # no struct literal or block-like start in scrutinee position is produced by scrut
            pats = []
            for i in range(n - 1):
                p = self.few(5)
                pats.append((["%d" % i, "%d | %d" % (i, i + 7), "%d..=%d" % (i, i), "%d if db(%d)" % (i, self.k()), "x @ %d" % i][p], ("x",) if p == 4 else ()))
            pats.append([("_", ()), ("y", ("y",)), ("..=-1 | _", ())][self.few(3)])
        elif sort == "opt":
            head = self.optx(sc, d - 1)
            pats = []
            for i in range(n - 2):
                p = self.few(3)
                pats.append([("Some(x) if x %% 3 == %d" % i, ("x",)), ("Some(%d)" % i, ()), ("Some(x @ %d..=%d)" % (i, i + 2), ("x",))][p])
            pats += [("Some(z)", ("z",)), ("None", ())] if self.few(2) else [("None", ()), ("Some(z)", ("z",))]
        else:
            head = j("(", self.iexpr(sc, d - 1), ", ", self.cond(sc, 0), ")")
            pats = [("(%d, %s)" % (i, ["true", "_", "b"][self.few(3)]), ()) for i in range(n - 1)] + [("(x, _)", ("x",))]
        gl = []
        for i, (p, vs) in enumerate(pats):
            s2 = sc.but(vars=vs + sc.vars) if vs else sc
            if " if " not in p and "_" not in p and p not in ("None", "y", "Some(z)") and sort != "tup" and i < len(pats) - 1 and self.few(6) == 5:
                p = j(p, " if ", self.cond(s2.but(), d - 1))
            att, body = self.branch(s2, d - 1, i < need, "arm")
            cma = ","
            if body.a.startswith("{") and body.a.endswith("}") and body.r.startswith("{") and self.few(2) and False:
                cma = ""
            arms.append(j(att, p, " => ", body, cma))
        return j("match ", head, " { ", jl(arms), " }")

    def mif(self, sc, d, need):
        n = max(need, 2) + self.few(2)
        out = []
        for i in range(n):
            s2, c = sc, None
            if i < n - 1:
                w = self.alt((4, "plain"), (2, "iflet"), (1, "chain"), (1, "blockc", d > 1))
                if w == "plain":
                    c = self.cond(sc, d - 1)
                elif w == "blockc":
                    st, s3 = self.stmts(sc, 1, d - 2)
                    c = j("{ ", st, " ", self.cond(s3, 0), " }")
                else:
                    v = "v%d" % self.k()
                    self.on("if let chain" if w == "chain" else "if let")
                    c = j("let Some(%s) = " % v, self.optx(sc, d - 1))
                    if w == "chain":
                        c = j(c, " && %s != 3 && db(%d)" % (v, self.k()))
                    s2 = sc.but(vars=(v,) + sc.vars)
            _, body = self.branch(s2, d - 1, i < need, "block")
            out.append(j("if ", c, " { ", body, " }") if c is not None else j("{ ", body, " }"))
        return jl(out, " else ")

    def mloop(self, sc, d, need):
        at = sc.attr
        lab = self.label(sc)
        self.on("loop")
        s2 = sc.but(loops=((lab, "m", at),) + sc.loops)
        st, s3 = self.stmts(s2, self.few(3), d - 1)
        parts = [st]
        for i in range(max(need - 1, 0)):
            parts.append(j("if db(%d) { break " % self.k(), (lab + " " if lab and self.few(2) else ""), at.wrap(self.single(s3, d - 1, at)), "; }"))
        more, s3 = self.stmts(s3, self.few(2), d - 1)
        parts.append(more)
        last = j("break ", (lab + " " if lab and self.few(2) else ""), at.wrap(self.single(s3, d - 1, at)))
        f = self.few(3)
        parts.append([j(last, ";"), j("if db(%d) { " % self.k(), last, " }"), j("match d(%d, 3) { 0 => ev(%d), 1 => { " % (self.k(), self.k()), last, " } _ => continue }")][f])
        return j((lab + ": " if lab else ""), "loop { tick(); ", jl(parts), " }")

    # ------------------------------------------------------------ further attributes inside
    def attr_args(self, at):
        m = [] if at.marker in (None, "marker") else ["marker = %s" % at.marker]
        xs = [at.args] + m
        if m and self.few(2):
            xs = m + [at.args]
        return ", ".join(xs) + ["", ","][self.few(2)]

    def newattr(self, sc):
        """A child attribute and the markers it hides."""
        prof = self.childprofs[self.few(len(self.childprofs))]
        outer = sc.marks
        mk = self.few(3)
        name = "marker" if mk < 2 else [m for m in ("ma", "mb", "mc", "md", "me", "m%d" % self.k()) if m not in [o.marker for o in outer]][self.few(2) if self.fuel > 0 else 0]
        at = Attr(prof, name)
        # inside the child a default-named marker is always the child's own
        hidden = tuple(o for o in outer if o.marker == "marker")
        return at, sc.but(attr=at, marks=outer + (at,), nomark=sc.nomark + hidden)

    def child(self, sc, d):
        """A statement carrying its own attribute."""
        at, s2 = self.newattr(sc)
        k = self.k()
        self.on("child attribute")
        a = self.alt((4, "let"), (2, "arg"), (2, "letexpr"), (2, "closure"), (1, "callclosure"), (2, "semi"), (1, "asg"), (1, "cond"))
        if sc.attr is not None:
            self.on("child inside another attribute's scope")
            if d < 3 and self.few(2):
                # with annotations of its own
                d = 3
        A = only_a("#[auto_enum(%s)] " % self.attr_args(at))
        self.on("child as " + a)
        if a == "let":
            return j(A, ["let x%d = ", "let mut x%d = "][self.few(2)] % k, self.multi(s2, d - 1, 2), "; %s(x%d);" % (at.obs, k))
        if a == "arg":
            return j("%s(" % at.obs, A, self.plainstart(s2, d - 1), ");")
        if a == "letexpr":
            return j("let x%d = " % k, A, self.plainstart(s2, d - 1), "; %s(x%d);" % (at.obs, k))
        if a == "cond":
            return j("if { %s(" % at.obs, A, self.plainstart(s2, d - 1), "); db(%d) } { ev(%d) }" % (k, k))
        if a in ("closure", "callclosure"):
            hid = tuple(o for o in sc.marks if o.marker == "marker")
            s3 = sc.closed().but(attr=at, ret="wrap", retattr=at, vars=("q",) + sc.vars, muts=(), marks=s2.marks, nomark=s2.nomark)
            st, s4 = self.stmts(s3, self.few(3), d - 1)
            clo = j("|q: i64| { ", st, " ", self.multi(s4, d - 1, 2), " }")
            if a == "closure":
                return j(A, "let c%d = " % k, clo, "; %s(c%d(%d)); %s(c%d(%d));" % (at.obs, k, self.few(4), at.obs, k, self.few(4)))
            return j("%s((" % at.obs, A, clo, ")(%d));" % self.few(4))
        if a == "asg":
            return j("let x%d; x%d = " % (k, k), A, self.plainstart(s2, d - 1), "; %s(x%d);" % (at.obs, k))
        # an expression statement ending in a semicolon: only what is marked
        v = "x%d" % k
        st, s3 = self.stmts(s2, self.few(2), d - 1)
        put = lambda sc: j(v + " = ", self.m1(sc, d - 1, at), self.s.pick([";", ""]))
        w = self.few(3)
        if w == 0:
            ex = [j("_ => { ", st, " ", put(s3), " }"), j("1 => { ", st, " ", put(s3), " } 2 => { ", put(s2), " } _ => { ", self.tail_or_put(s2, put), " }")][self.few(2)]
            body = j("match ", self.scrut(s2, 0), " { 0 => { ", put(s2), " } ", ex, " }")
        elif w == 1:
            body = j("if ", self.cond(s2, 0), " { ", put(s2), " } else { ", st, " ", put(s3), " }")
        else:
            body = j("{ ", st, " if ", self.cond(s3, 0), " { ", put(s3), " } else { ", put(s3), " } }")
        return j("let %s; " % v, A, body, "; %s(%s);" % (at.obs, v))

    def tail_or_put(self, sc, put):
        if self.can_act(sc) and self.few(2):
            return j(self.act(sc, 0), ";")
        return put(sc)

    def plainstart(self, sc, d):
        return self.multi(sc, d, 2)

    # ------------------------------------------------------------ expressions all of whose values are marked
    def mexpr(self, sc, d, at, need=0):
        a = self.alt((1 if need else 5, "mark" if not need else "if"), (2, "if", d > 0), (2, "match", d > 0), (1, "block", d > 0), (1, "pick", d > 0 or need), (1, "opt", d > 0), (1, "clos", d > 0), (1, "loop", d > 0),
                     (1, "lbl", d > 0), (1, "let", d > 0), (1, "array", d > 0), (1, "id", d > 0), (1, "struct", d > 0), (1, "async", d > 0), (1, "ref", d > 0), (1, "closret", d > 0), (1, "assign", d > 0),
                     (1, "tryb", d > 0), (1, "act", d > 0 and self.can_act(sc) and not need))
        m = lambda dd=d - 1, n=0: self.mexpr(sc, dd, at, n)
        if a == "mark":
            return self.msingle(sc, at, d)
        self.on("marker under " + a)
        n = 1 if need else 0
        if a == "if":
            return j("if ", self.cond(sc, d - 1), " { ", m(n=n), " } else { ", m(n=n), " }") if not need else j("if ", self.cond(sc, d - 1), " { ", self.m1(sc, d, at), " } else { ", self.m1(sc, d, at), " }")
        if need:
            # the remaining forms get two certain markers through a condition
            gs = sc.closed() if a in ("clos", "closret", "async") else sc
            if a in ("loop", "lbl"):
                gs = sc.but(loops=(("", "b", None),) + tuple(x for x in sc.loops if x[0]))
            g = lambda: j("(if db(%d) { " % self.k(), self.m1(gs, d, at), " } else { ", self.m1(gs, d, at), " })")
            first = [g()]
            m = lambda dd=d - 1, n=0: first.pop() if first else self.mexpr(sc, dd, at, 0)
        if a == "match":
            st, s2 = self.stmts(sc, 1, d - 1)
            return j("match ", self.scrut(sc, d - 1), " { 0 => ", m(), ", 1 => { ", st, " ", m(), " } n if n > 3 => (", m(), "), _ => ", m(), " }")
        if a == "act":
            return j("if ", self.cond(sc, 0), " { ", self.act(sc, d - 1), " } else { ", m(), " }")
        if a == "block":
            st, _ = self.stmts(sc, 1, d - 1)
            return j("{ ", st, " ", m(), " }")
        if a == "pick":
            return j("(", m(), ", ", self.iexpr(sc, d - 1), ").0")
        if a == "opt":
            return j("Some(", m(), ").filter(|_| db(%d)).unwrap_or_else(|| " % self.k(), self.mexpr(sc.closed(), 0, at), ")")
        if a == "clos":
            return j("(|x: bool| if x { ", self.mexpr(sc.closed(), d - 1, at), " } else { ", m() if need else self.mexpr(sc.closed(), d - 1, at), " })(db(%d))" % self.k())
        if a == "closret":
            return j("(|| { if db(%d) { return " % self.k(), self.mexpr(sc.closed(), d - 1, at), "; } ", m() if need else self.mexpr(sc.closed(), d - 1, at), " })()")
        if a == "loop":
            s2 = sc.but(loops=(("", "b", None),) + tuple(x for x in sc.loops if x[0]))
            return j("(loop { tick(); if db(%d) { break " % self.k(), m() if need else self.mexpr(s2, d - 1, at), "; } ev(%d); })" % self.k())
        if a == "lbl":
            lab = "'b%d" % self.k()
            s2 = sc.but(loops=((lab, "z", None), ) + sc.loops)
            s3 = sc.but(loops=(("", "b", None),) + sc.loops)
            return j("(", lab, ": { if db(%d) { break %s " % (self.k(), lab), m() if need else self.mexpr(s3, d - 1, at), "; } ", self.mexpr(s3, d - 1, at), " })")
        if a == "let":
            v = "y%d" % self.k()
            return j("{ let %s = " % v, m(), "; ev(%d); %s }" % (self.k(), v))
        if a == "array":
            return j("[", m(), ", ", m(), "].into_iter().nth(d(%d, 2) as usize).unwrap()" % self.k())
        if a == "id":
            return j("id(", m(), ")")
        if a == "struct":
            return j("(Wr { w: ", m(), " }).w")
        if a == "async":
            return j("block_on(async { if db(%d) { return " % self.k(), self.mexpr(sc.closed(), d - 1, at), "; } l::<%d>(1).await; " % self.k(), m() if need else self.mexpr(sc.closed(), d - 1, at), " })")
        if a == "ref":
            v = "y%d" % self.k()
            return j("{ let mut %s = " % v, m(), "; let z = std::mem::replace(&mut %s, " % v, m(), "); ev(%d); z }" % self.k())
        if a == "assign":
            v = "y%d" % self.k()
            return j("{ let %s; if db(%d) { %s = " % (v, self.k(), v), m(), "; } else { %s = " % v, m(), " } %s }" % v)
        if a == "tryb":
            return j("{ let y: Option<_> = try { if db(%d) { None? } else { " % self.k(), m(), " } }; y.unwrap_or_else(|| ", self.mexpr(sc.closed(), 0, at), ") }")
        raise AssertionError(a)

    def m1(self, sc, d, at):
        return self.msingle(sc, at, d - 1)
