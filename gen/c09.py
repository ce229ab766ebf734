"""C09: what the expansion leaves of the code, seen by a second attribute macro."""
import concurrent.futures as cf
import os, re, shutil, subprocess
from vk import build, report, choice
from vk.build import Infra
from .syntax import Syn

FEATURES = ("#![feature(stmt_expr_attributes, proc_macro_hygiene, custom_inner_attributes, try_blocks, never_type, let_chains, associated_const_equality, async_closure, raw_ref_op, c_str_literals, register_tool)]\n#![register_tool(my)]\n"
            "#![allow(warnings)]\n")
TRAITS = ["Debug", "Iterator", "fmt::Debug, Clone", "io::Read, Iterator,", "Foo"]
FNATTRS = ["#[inline]", "/// doc\n", "#[doc = \"d\"]", "#[cfg_attr(all(), allow(unused))]", "#[my::attr(x = 1, { marker!(y) })]", "#[must_use]", "#[allow(clippy::all)]", "#[no_mangle]"]


class Gen:
    def __init__(self, s):
        self.s = s
        self.y = Syn(s, fuel=50 + 60 * s.draw(3))
        self.n = 0

    def scope(self, marks, notes):
        y = self.y
        old = (y.marks, y.notes)
        y.marks, y.notes = marks, notes
        return old

    def leaf(self, d):
        """A branch's value."""
        y = self.y
        k = y.alt((6, "e"), (1, "mark"), (1, "never"), (1, "div"), (1, "blk"))
        if k == "mark" and y.marks:
            return y.mark(d)
        if k == "div":
            return self.s.pick(["panic!(\"x\")", "return", "unreachable!()", "return 3", "continue", "std::unreachable!()", "None?", "Err(3)?"])
        if k == "blk":
            return "{ %s %s }" % (y.stmt(d - 1), self.tail(self.plain(d)))
        if k == "never" and y.notes:
            y.on("#[never]")
            return "(%s%s)" % (y.note("never"), y.atom(1)) if self.s.draw(2) else "%s{ %s }" % (y.note("never"), y.tail(1))
        return self.plain(d)

    def plain(self, d):
        e = self.y.expr(d)
        return "(%s)" % e if e.startswith(("return", "break", "continue", "_ =")) else e

    def tail(self, e):
        return self.y.guard(e)

    def stmts(self, d, n):
        out = []
        for _ in range(self.s.draw(n + 1)):
            k = self.y.alt((6, "s"), (2, "child"), (1 if self.y.notes else 0, "note"))
            if k == "s":
                out.append(self.y.stmt(d))
            elif k == "note":
                self.y.on("annotation in a statement")
                out.append(self.s.pick(["#[never] return %s;" % self.y.expr(d - 1), "#[nested] let z = %s;" % self.multi(d - 1, 2), "let q = (#[never] a?);", "#[nested] { %s }" % self.multi(d - 1, 2)]))
            else:
                out.append(self.child(d))
        return " ".join(out)

    def child(self, d):
        """A statement or expression with its own attribute."""
        y = self.y
        y.on("attribute inside")
        name = self.s.pick(["marker", "mk%d" % self.n])
        self.n += 1
        k = self.s.draw(4)
        outer = [m for m in y.marks if m != "marker"]
        arg = self.s.pick(["Debug", "Iterator,", "fmt::Write, Clone"]) + ("" if name == "marker" else "")
        if name != "marker":
            arg = "%s, marker = %s" % (arg.rstrip(","), name)
        old = self.scope(tuple(outer) + (name,), True)
        try:
            if k == 0:
                return "%slet %s%s = %s;" % (y.note("auto_enum(%s)" % arg), self.s.pick(["v", "mut v", "(v, _)"]), self.s.pick(["", ": _"]), self.multi(d, 2))
            if k == 1:
                return "f(%s, (%s%s));" % (self.s.pick(["1", "a.b"]), y.note("auto_enum(%s)" % arg), self.multi(d, 2))
            if k == 2:
                y.marks = (name,)
                return "#[auto_enum(%s)] { f(%s); g(%s); }" % (arg, y.mark(1), y.mark(1))
            return "#[auto_enum(%s)] let c = |x| { %s %s };" % (arg, self.stmts(d - 1, 1), self.multi(d - 1, 2))
        finally:
            self.scope(*old)

    def multi(self, d, least=2):
        """An expression with at least two branches (and a few more)."""
        y = self.y
        y.fuel -= 1
        n = least + 1 + self.s.draw(2)
        if self.s.draw(40) == 39:
            n = self.s.int(10, 70)
            y.on("more than 10 branches")
        lv = lambda i: self.plain(max(d, 1)) if i < least else y.leaf() if n > 9 else self.leaf(max(d, 1))
        k = y.alt((4, "match"), (4, "if"), (3, "loop"), (2, "block"), (1, "unsafe"), (1, "paren"), (1, "method")) if d > 0 and y.fuel > 0 else y.alt((1, "match"), (1, "if"))
        y.on("branches: " + k)
        if k == "match":
            arms = []
            for i in range(n):
                g = " if %s" % y.cond(1) if self.s.draw(5) == 4 else ""
                b = lv(i)
                a = y.attr(8)
                if y.notes and i >= least and self.s.draw(5) == 4:
                    a += y.note("never")
                    y.on("#[never]")
                elif y.notes and d > 1 and self.s.draw(6) == 5:
                    a += y.note("nested")
                    y.on("#[nested]")
                    b = self.multi(d - 1, 2)
                sep = self.s.pick([",", ",", "" if b in (y.blk or ()) and b.startswith("{") else ","])
                arms.append("%s%s%s => %s%s" % (a, y.pat(2), g, b, sep))
            return "match %s { %s }" % (self.s.pick(["x", "(%s)" % y.expr(2)]), " ".join(arms))
        if k == "if":
            out = ""
            for i in range(n):
                t = "{ %s %s }" % (self.stmts(1, 1), self.tail(lv(i)))
                if i == 0:
                    out = "if %s %s" % (y.cond(1), t)
                elif i < n - 1:
                    out += " else if %s %s" % (y.cond(1), t)
                else:
                    out += " else %s" % t
            return out
        if k == "loop":
            l = self.s.pick(["", "'t: "])
            brk = ["if %s { %sbreak %s%s; }" % (y.cond(1), self.stmts(1, 1) + " ", "'t " if l and self.s.draw(2) else "", y.nolabel(lv(i))) for i in range(n)]
            if l and self.s.draw(2):
                y.on("labelled break out of an inner loop")
                brk.append("while %s { loop { break 't %s; } break; }" % (y.cond(1), y.nolabel(lv(9))))
            return "%sloop { %s %s %s }" % (l, self.stmts(1, 1), " ".join(brk), self.stmts(1, 1))
        if k == "block":
            return "{ %s %s }" % (self.stmts(d - 1, 2), self.tail2(self.multi(d - 1, least)))
        if k == "unsafe":
            return "unsafe { %s %s }" % (self.stmts(d - 1, 2), self.tail2(self.multi(d - 1, least)))
        if k == "paren":
            return "(%s)" % self.multi(d - 1, least)
        return "(%s).%s(%s)" % (self.multi(d - 1, least), self.s.pick(["m", "map::<u8, _>", "r#fn"]), y.argl(2))

    def tail2(self, e):
        return e

    def fnitem(self, attr):
        s, y = self.s, self.y
        at = "".join(s.pick(FNATTRS) + " " for _ in range(s.draw(3)))
        at2 = "".join(s.pick(FNATTRS) + " " for _ in range(s.draw(2)))
        gen = s.pick(["", "<'a, T: %s + ?Sized, const N: usize>" % y.bound(1), "<'a: 'static, #[cfg(any())] 'b, T = u8>" if False else "<T>"])
        wh = s.pick(["", " where T: 'a, for<'b> &'b T: Tr<Out = u8>,", " where [u8; 3]: Sized"])
        recv = s.pick(["", "self", "&'a mut self", "self: Box<Self>"]) if self.method else ""
        ps = ", ".join([p for p in [recv, s.pick(["", "x: %s" % y.ty(2), "(a, mut b): (u8, T)", "_: u8, #[cfg(any())] z: T, [p, q]: [u8; 2]"])] if p])
        mode = s.weighted([(4, "impl"), (2, "other"), (2, "try"), (1, "none")])
        ret = {"impl": "-> impl %s" % y.bound(2), "other": "-> " + y.ty(2), "try": "-> %sResult<%s, impl Tr>" % (s.pick(["", "std::result::", "core::result::"]), y.ty(1)), "none": ""}[mode]
        y.on("returns " + mode)
        q = s.pick(["", "pub ", "pub(crate) "]) + s.pick(["", "", "async ", "unsafe ", "const ", "unsafe extern \"C\" ", "async unsafe "])
        body = self.stmts(3, 3)
        if mode == "try" and not self.dummy:
            y.on("? mode")
            body += " let p = %s?; f(%s?); " % (y.atom0(2), y.atom0(2))
            tail = y.tail(2)
        elif self.dummy:
            tail = y.tail(2)
        else:
            k = s.weighted([(6, "multi"), (1 if y.marks else 0, "marks"), (1 if mode == "impl" else 0, "ret")])
            if k == "multi":
                tail = self.multi(3, 2)
            elif k == "marks":
                body += " f(%s, %s);" % (y.mark(2), y.mark(2))
                tail = "x"
            else:
                tail = "if a { return %s; } %s" % (y.expr(2), "return %s%s" % (y.expr(2), s.pick([";", ""])))
        inner = s.pick(["", "", "#![allow(unused)] "])
        return "%s%s %s%sfn f%s(%s) %s%s { %s%s %s }" % (at, attr, at2, q, gen, ps, ret, wh, inner, body, tail)

    def case(self, i):
        s, y = self.s, self.y
        self.dummy = s.draw(6) == 5
        self.method = s.draw(5) == 4
        place = s.weighted([(5, "fn"), (2, "let")]) if not self.dummy else s.weighted([(3, "fn"), (1, "let"), (2, "expr")])
        name = s.pick(["marker", "marker", "mm", "r#in"])
        arg = s.pick(TRAITS)
        if name != "marker":
            arg = s.pick(["%s, marker = %s" % (arg.rstrip(","), name), "marker = %s, %s" % (name, arg)])
        A = "#[spy::before(%d)] #[auto_enums::auto_enum(%s)] #[spy::after(%d)]" % (i, arg, i)
        if self.dummy:
            A = "#[spy::before(%d)] #[auto_enums::auto_enum%s] #[spy::after(%d)]" % (i, s.pick(["", "()"]), i)
            y.on("empty attribute")
            y.marks, y.notes = (), False
        else:
            y.marks, y.notes = (name,), True
        if place == "fn":
            f = self.fnitem(A)
            if self.method:
                y.on("method")
                return "mod c%d { impl S { %s } }" % (i, f)
            if s.draw(12) == 11:
                # code that comes through macro_rules
                y.on("through macro_rules")
                body = f
                return "mod c%d { macro_rules! w { ($e:expr, $t:ty) => { %s } } w!(a + b, Vec<u8>); }" % (i, self.subst(body))
            return "mod c%d { %s }" % (i, f)
        if place == "expr":
            # what stands in an expression has to be kept for the rest to parse; with arguments, the enum would be around what is recorded
            A = A.replace("spy::after", "spy::kept")
            k = s.weighted([(2, "tail"), (2, "argument"), (1, "let"), (1, "operand"), (2, "statement")])
            y.on("expression: " + k)
            e = self.multi(3, 2)
            if k == "tail":
                return "fn c%d() { %s %s %s }" % (i, s.pick(["", "let a = 1; "]), A, e)
            if k == "argument":
                return "fn c%d() { f((%s %s), 3); }" % (i, A, e if s.draw(2) else "(%s)" % e)
            if k == "let":
                return "fn c%d() { let x = %s %s; }" % (i, A, e)
            if k == "operand":
                return "fn c%d() { let x = a + (%s %s) + b; }" % (i, A, e)
            m = lambda: y.atom(2)
            return "fn c%d() { %s %s }" % (i, A, s.pick(["f(%s, %s);", "{ f(%s); %s }", "a.b(%s).c(%s);", "x = [%s, %s];", "while c { f(%s); g(%s) }", "if %s { } else { %s }"]) % (m(), m()))
        y.on("let statement")
        return "fn c%d() { %s %s let %s = %s; }" % (i, s.pick(["", "#[allow(unused)]"]), A, s.pick(["x", "mut x", "(x, ref y)", "x: u8", "_"]), self.multi(3, 2))

    def subst(self, body):
        # always in parentheses: rustc forgets the grouping of fragments in what any procedural macro rebuilds (rust-lang/rust#67062)
        return "fn z() {}" if "$" in body else body.replace("(x)", "($e)").replace("as u8", "as $t")


def run_batch(d, mac, so, exe, cases, edition="2021", stop=0):
    """cases: list of (id, source). Returns {id: (status, rest)} and the diagnostics."""
    os.makedirs(d)
    src, out = os.path.join(d, "main.rs"), os.path.join(d, "spy.txt")
    lines = {}
    with open(src, "w") as f:
        f.write(FEATURES)
        for i, t in cases:
            f.write(t.replace("\n", " \n") + "\n")
        if stop:
            f.write("spy::stop!(%d);\n" % stop)
    e = dict(build.env(), SPY_OUT=out)
    args = [build.rustc(), "--error-format=json", "--edition", edition, "--crate-type", "rlib", "--crate-name", "m", "--emit=metadata", "-o", os.path.join(d, "x.rmeta")] + mac.flags() + ["--extern", "spy=" + so, src]
    try:
        p = subprocess.run(args, cwd=d, env=e, capture_output=True, text=True, errors="replace", timeout=300)
        q = subprocess.run([exe, out], capture_output=True, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        raise Infra("expansion timed out")
    if q.returncode != 0:
        raise Infra("judge failed: " + q.stderr[-1000:])
    res = {}
    for l in q.stdout.splitlines():
        p2 = l.split("\t")
        res[int(p2[0])] = p2[1:]
    return res, p.stderr


def gen_one(s, i):
    g = Gen(s)
    t = g.case(i)
    return t, g.y.labels


def check(rep):
    rep.rule.append("Random syntactically valid functions, methods and let statements under #[auto_enum], recorded before and after the expansion and compared as syntax trees after "
                    "erasing generated enums, constructors, annotations and markers; non-trivial: expanded, with at least 2 wrapped values or (empty attribute) 10 expressions.")
    rep.assumptions.append("parentheses, trailing arm commas and `return` versus `return ()` are not told apart; syntax the syn parser rejects or stores verbatim is skipped")
    mac = build.cargo_build("default", build.DEFAULT_FEATURES)
    so, exe = build.spy()
    d = build.scratch("C09")
    try:
        if rep.replay:
            src = choice.Src(choices=rep.replay["choices"])
            t, _ = gen_one(src, 0)
            r, _ = run_batch(os.path.join(d, "r"), mac, so, exe, [(0, t)], stop=20)
            if r.get(0, ["NONE"])[0] == "BAD":
                rep.violation(rep.replay["key"], r[0][1] + "\n" + t, {k: rep.replay[k] for k in ("choices", "source") if k in rep.replay})
            return
        n = int((12000 if rep.tier == "quick" else 150000) * rep.scale)
        per = 250
        todo = []
        for i in range(n):
            s = choice.Src(seed="C09/%d/%d" % (rep.seed, i))
            t, lb = gen_one(s, i)
            todo.append((i, t, lb, s.log))
        chunks = [todo[i:i + per] for i in range(0, n, per)]
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda k: run_batch(os.path.join(d, "b%d" % k), mac, so, exe, [(i, t) for i, t, _, _ in chunks[k]], stop=20), range(len(chunks))))
        bad = []
        for ch, (res, err) in zip(chunks, outs):
            for i, t, lb, log in ch:
                r = res.get(i, ["LOST"])
                rep.label({"outcome " + r[0]})
                if r[0] in ("NONE", "LOST") and os.environ.get("VERIF_DEBUG"):
                    open("/tmp/c09-%s-%d.rs" % (r[0].lower(), i), "w").write(FEATURES + t)
                if r[0] == "OK":
                    rep.evaluations += 1
                    rep.label(lb)
                    if int(r[2]) >= 2 or ("empty attribute" in lb and int(r[1]) >= 10):
                        rep.nontrivial.add(report.digest(re.sub(r"\b\d+\b", "", t)))
                        if len(rep.nontrivial) in (3, 50):
                            rep.sample({"source": t, "expressions": int(r[1]), "wrapped": int(r[2])})
                elif r[0] == "BAD":
                    bad.append((log, t, r[1]))
        lost = rep.labels.get("outcome LOST", 0) + rep.labels.get("outcome SKIP", 0)
        if lost > n // 4 or rep.labels.get("outcome NONE", 0) > n // 2:
            rep.extra["few_expanded"] = True
        bad.sort(key=lambda x: len(x[0]))
        for log, t, why in bad[:2]:
            k = [0]

            def test_many(lists):
                gs = []
                for j, l in enumerate(lists):
                    s = choice.Src(choices=l)
                    try:
                        gs.append((j, gen_one(s, j)[0]))
                    except RecursionError:
                        pass
                k[0] += 1
                r, _ = run_batch(os.path.join(d, "s%d-%d" % (k[0], len(log))), mac, so, exe, gs, stop=20)
                return [r.get(j, ["x"])[0] == "BAD" for j in range(len(lists))]
            m = choice.shrink(log, test_many, rounds=10)
            s = choice.Src(choices=m)
            t2, _ = gen_one(s, 0)
            r, _ = run_batch(os.path.join(d, "f%d" % len(log)), mac, so, exe, [(0, t2)], stop=20)
            if r.get(0, ["x"])[0] == "BAD":
                t, why, log = t2, r[0][1], m
            rep.violation("c09:" + report.digest(t), why.replace("\\n", "\n") + "\n" + t, {"choices": log, "source": t})
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C09": check}
