"""C01..C07, C11: generated programs, annotated against boxed by hand."""
import os, shutil
from vk import build, rust, report
from vk.rust import Case
from .cgen import T, j, jl, only_a, Attr, Sc, G, PROF, DEFAULT_PROFS, ALL_PROFS

FEAT = "#![feature(stmt_expr_attributes, proc_macro_hygiene, let_chains, never_type, try_blocks, fn_traits, unboxed_closures, type_alias_impl_trait)]\n"
PRELUDE = FEAT + "#![allow(warnings)]\n"
HEAD = "use sup::*;\n"
AUSE = "#[allow(unused_imports)] use auto_enums::auto_enum;\n"
SIMPLE = ["it", "dbg", "dsp", "fut", "read", "err", "dd", "dei"]


def module(body, drive, rounds=5, use=AUSE):
    """body, drive: pairs. drive is an expression statement list using M:: for the module."""
    src = HEAD + "pub mod auto { use super::*; %s%s }\npub mod refr { use super::*; %s }\n" % (use, body.a, body.r)
    src += "pub fn run(cx: &mut Cx) {\n cx.explore(\"f\", %d, || { %s }, || { %s });\n}\n" % (rounds, drive.a.replace("M::", "auto::"), drive.r.replace("M::", "refr::"))
    ref = HEAD + "pub mod refr { use super::*; %s }\npub fn run(cx: &mut Cx) { cx.explore(\"f\", 1, || { %s }, || { %s }); }\n" % (body.r, drive.r.replace("M::", "refr::"), drive.r.replace("M::", "refr::"))
    return src, ref


def show(body):
    return body.a


def case(g, body, drive):
    src, ref = module(body, drive)
    return Case(src, ref, labels=g.labels, meta={"show": body.a, "count": g.wraps})


def pick_prof(g, all_):
    ps = [p for p in (ALL_PROFS if all_ else DEFAULT_PROFS)]
    return ps[g.s.draw(len(ps))]


def obs(at, x):
    return j(at.obs, "(", x, ");")


# ---------------------------------------------------------------- placements
def p_fn(g, at, sc, d, tail=None):
    """The attribute on a function returning impl Trait."""
    sc = sc.but(vars=("p",), attr=at)
    st, s2 = g.stmts(sc, g.few(4), d)
    body = tail(s2) if tail else g.multi(s2, d, 2)
    f = j(only_a("#[auto_enum(%s)] " % args(at)), "pub fn f(p: i64) -> ", T("impl " + at.imp, at.bty + "<'static>"), " { ", st, " ", body, " }")
    return f, T("%s(M::f(d(900, 4) as i64));" % at.obs)


def args(at, extra=""):
    m = "" if at.marker in (None, "marker") else "marker = %s" % at.marker
    xs = [x for x in ([at.args, m] if not getattr(at, "mfirst", 0) else [m, at.args]) if x]
    return ", ".join(xs)


def p_tail(g, at, sc, d, tail=None):
    """The attribute on the tail expression of a function, with or without an empty one on the function."""
    sc = sc.but(vars=("p",), attr=at, ret=None)
    st, s2 = g.stmts(sc, g.few(3), d)
    body = tail(s2) if tail else g.multi(s2, d, 2)
    outer = ["", "#[auto_enum] "][g.few(2)]
    f = j(only_a(outer), "pub fn f(p: i64) -> ", T("impl " + at.imp, at.bty + "<'static>"), " { ", st, " ", only_a("#[auto_enum(%s)] " % args(at)), body, " }")
    return f, T("%s(M::f(d(900, 4) as i64));" % at.obs)


RETS = {"i64": ("i64", "{e}"), "unit": ("()", "()"), "opt": ("Option<i64>", "Some({e})"), "res": ("Result<i64, i64>", "Ok({e})")}


def p_let(g, at, sc, d, ret=None, tail=None):
    """The attribute on a let in a function."""
    ret = ret or ["i64", "unit", "opt", "res"][g.few(4)]
    rt, fin = RETS[ret]
    sc = sc.but(vars=("p",), attr=at, ret=ret, retattr=None)
    st, s2 = g.stmts(sc, g.few(3), d)
    body = tail(s2) if tail else g.multi(s2, d, 2)
    outer = ["", "#[auto_enum] "][g.few(2)]
    mut = ["", "mut "][g.few(2)]
    ob = "x"
    after, s3 = g.stmts(s2, g.few(2), 1)
    e = g.iexpr(s3, 1)
    f = j(only_a(outer), "pub fn f(p: i64) -> %s { " % rt, st, " ", only_a("#[auto_enum(%s)] " % args(at)), "let %sx = " % mut, body, "; %s(x); " % at.obs, after, " ",
          T(fin.format(e=e.a), fin.format(e=e.r)), " }")
    return f, T("note(\"ret\", M::f(d(900, 4) as i64));")


def p_closure(g, at, sc, d, tail=None):
    """The attribute on a closure: let, call argument, or returned."""
    own = sc.but(vars=("q", "p"), attr=at, ret="wrap", retattr=at, loops=())
    mv = ["", "move "][g.few(2)]
    if g.few(3) == 2:
        body = tail(own) if tail else g.multi(own, d, 2)
        # a closure body that starts with { would be taken as the whole body
        clo = j(mv, "|q: i64| ", j("(", body, ")") if body.a.startswith("{") else body)
    else:
        st, s2 = g.stmts(own, g.few(4), d)
        body = tail(s2) if tail else g.multi(s2, d, 2)
        out = ["", "", "", "-> _ "][g.few(4)]
        if out:
            g.on("closure with a written return type")
        clo = j(mv, "|q: i64| ", out, "{ ", st, " ", body, " }")
    out = sc.but(vars=("p",), ret="i64", retattr=None)
    st, s2 = g.stmts(out, g.few(2), 1)
    w = g.few(3)
    outer = ["", "#[auto_enum] "][g.few(2)]
    a = only_a("#[auto_enum(%s)] " % args(at))
    n = "for w in 0..2 { %s(c(w + p)); } p" % at.obs
    if w == 0:
        inner = j(a, "let c = ", clo, "; ", n)
    elif w == 1:
        inner = j("let c = ", a, clo, "; ", n)
    else:
        inner = j("let c = id(", a, clo, "); ", n)
    f = j(only_a(outer), "pub fn f(p: i64) -> i64 { ", st, " ", inner, " }")
    return f, T("note(\"ret\", M::f(d(900, 4) as i64));")


def p_method(g, at, sc, d, tail=None):
    """The attribute on methods of an inherent impl."""
    kind = g.few(4)
    recv, call, vs, rlt = [("&self", "MyS(4)", ("self.0",), 1), ("self", "MyS(5)", ("self.0",), 0), ("&mut self", "MyS(6)", ("s0",), 1), ("", "", (), 0)][kind]
    sc = sc.but(vars=("p",) + vs, attr=at)
    st, s2 = g.stmts(sc, g.few(3), d)
    if kind == 2:
        st = j("let s0 = self.0; self.0 += 1; ", st)
    body = tail(s2) if tail else g.multi(s2, d, 2)
    rt = T("impl " + at.imp + (" + '_" if rlt else ""), at.bty + ("<'_>" if rlt else "<'static>"))
    f = j("#[derive(Clone, Copy)] pub struct MyS(pub i64); impl MyS { ", only_a("#[auto_enum(%s)] " % args(at)), "pub fn f(%s) -> " % ", ".join(x for x in (recv, "p: i64") if x), rt, " { ", st, " ", body, " } }")
    if kind == 3:
        return f, T("%s(M::MyS::f(d(900, 4) as i64));" % at.obs)
    return f, T("let mut s = M::%s; %s(s.f(d(900, 4) as i64));" % (call, at.obs))


PLACES = {"fn": p_fn, "tail": p_tail, "let": p_let, "closure": p_closure, "method": p_method}


# ---------------------------------------------------------------- generators
def gen_c01(all_):
    def gen(s):
        g = G(s, {"exit": 2, "ifact": 2, "ret": 1, "mark": 0, "never": 0}, size=30 + 30 * s.draw(3))
        at = Attr(pick_prof(g, all_))
        place = g.s.weighted([(6, "fn"), (3, "let"), (2, "tail"), (2, "closure"), (2, "method")])
        sc = Sc(attr=at)
        if place in ("fn", "method"):
            f, dr = PLACES[place](g, at, sc, 3)
        elif place == "let":
            f, dr = p_let(g, at, sc, 3)
        elif place == "closure":
            f, dr = p_closure(g, at, sc, 3)
        else:
            f, dr = p_tail(g, at, sc, 3)
        g.on("placement " + place)
        g.on("traits " + at.args)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def gen_c02(all_):
    def gen(s):
        g = G(s, {"exit": 6, "ifact": 8, "letelse": 6, "cf": 5, "ret": 9, "mark": 0, "never": 0, "clos": 3, "asyncx": 3, "async": 2, "item": 2, "matchact": 5, "actc": 3, "loop": 1}, size=35 + 30 * s.draw(3))
        at = Attr(pick_prof(g, all_), "marker")
        place = g.s.weighted([(6, "fn"), (2, "closure"), (2, "method")])
        sc = Sc(attr=at, ret="wrap", retattr=at)
        def tail(s2):
            k = g.alt((4, "multi"), (3, "ret"), (2, "semi"), (1, "panic"), (2, "marker"), (1, "block"))
            if k == "multi":
                return g.multi(s2, 2, 2)
            g.on("tail is not branching")
            pre = T("")
            for _ in range(2):
                pre = j(pre, "if ", g.cond(s2, 1), " { ", g.ret(s2, 3), "; } ")
            if k == "ret":
                x = g.ret(s2, 2)
            elif k == "semi":
                x = j(g.ret(s2, 2), ";")
            elif k == "panic":
                x = T("panic!(\"end\")")
            elif k == "block":
                x = j("{ ev(1); ", g.ret(s2, 2), " }")
            else:
                x = g.msingle(s2, at, 2)
            return j(pre, x)
        f, dr = PLACES[place](g, at, sc, 3, tail=tail if place != "closure" else None)
        g.on("placement " + place)
        g.on("traits " + at.args)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def gen_c03(all_):
    def gen(s):
        g = G(s, {"ret": 4, "mark": 0, "never": 0, "exit": 3, "ifact": 4}, size=25 + 25 * s.draw(3))
        at = Attr(g.s.pick(["dbg", "dsp", "err", "dd", "it", "fut"] if g.s.draw(4) == 3 else ["dbg", "dsp", "err", "dd"]), "marker")
        sc = Sc(ret="try", tryattr=at, vars=("p",))
        clo = g.few(4) == 3
        if clo:
            sc = sc.but(vars=("q", "p"))
        st, s2 = g.stmts(sc, g.few(4), 3)
        def fin():
            k = g.alt((4, "ok"), (1, "errm"), (1, "map"), (1, "if", True), (1, "match"), (1, "ret"))
            if k == "ok":
                return j("Ok(", g.iexpr(s2, 2), ")")
            if k == "errm":
                return j("Err(", g.msingle(s2.but(attr=at), at, 2), ")")
            if k == "map":
                n = g.k()
                at.count += 1
                g.on("marker")
                return T("r::<%d>(%d).map_err(|e| marker!(e))" % (n, n), "r::<%d>(%d).map_err(|e| %s(e))" % (n, n, at.bx))
            if k == "if":
                return j("if ", g.cond(s2, 1), " { ", fin(), " } else { ", fin(), " }")
            if k == "match":
                return j("match ", g.scrut(s2, 1), " { 0 => ", fin(), ", _ => ", fin(), " }")
            return j(g.ret(s2, 2), ";") if False else j("{ ", g.ret(s2, 2), " }")
        pre = T("")
        need = 2
        while need:
            v = "w%d" % g.k()
            how = g.few(4)
            e = g.tryx(s2, 2)
            pre = j(pre, [j("let %s = " % v, e, "; "), j("if ", g.cond(s2, 0), " { let %s = " % v, e, "; ev(1); } "), j("evi(3, ", e, "); "), j("for %s in 0..2 { evi(%s, " % (v, g.k()), e, "); } ")][how])
            need -= 1
        end = fin()
        res = ["Result", "std::result::Result", "core::result::Result"][g.few(3)]
        A = only_a("#[auto_enum(%s)] " % at.args)
        if clo:
            g.on("closure")
            out = ["", "-> Result<i64, _> ", "-> Result<_, _> ", "-> std::result::Result<i64, _> ", "-> _ "][g.few(5)]
            if out:
                g.on("closure with a written return type")
            w = g.few(5)
            asy = ["", "", "async "][g.few(3)]
            if asy:
                g.on("async closure")
            cl = j(asy, ["", "move "][g.few(2)], "|q: i64| ", out, "{ ", st, " ", pre, " if false { return Ok::<i64, _>(0); } ", end, " }")
            call = "block_on(c(w + p))" if asy else "c(w + p)"
            # an empty attribute on the function leaves the work to the one inside
            outer = only_a(["", "#[auto_enum] "][g.few(2)]) if w < 3 else only_a("#[auto_enum] ")
            c = [j(A, "let c = ", cl), j(A, "let mut c = ", cl), j("let c = ", A, cl), j("let c = id(", A, cl, ")"), j("let (c, _) = (", "{ ", A, cl, " }", ", 1)")][w]
            f = j(outer, "pub fn f(p: i64) -> i64 { ", c, "; for w in 0..2 { match %s { Ok(v) => note(\"ok\", v), Err(e) => %s(e) } } p }" % (call, at.obs))
            dr = T("note(\"ret\", M::f(d(900, 4) as i64));")
        else:
            unit = False
            q = ["", "", "async ", "unsafe "][g.few(4)]
            if q:
                g.on(q + "function")
            f = j(A, "pub %sfn f(p: i64) -> %s<i64, " % (q, res), T("impl " + at.imp, at.bty + "<'static>"), "> { ", st, " ", pre, end, " }")
            call = {"async ": "block_on(M::f(d(900, 4) as i64))", "unsafe ": "unsafe { M::f(d(900, 4) as i64) }"}.get(q, "M::f(d(900, 4) as i64)")
            dr = T("match %s { Ok(v) => note(\"ok\", v), Err(e) => %s(e) }" % (call, at.obs))
        g.on("traits " + at.args)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def gen_c04(all_):
    def gen(s):
        g = G(s, {"exit": 2, "ifact": 2, "mark": 1, "never": 4, "div": 8, "nested": 5, "nestedtail": 4, "nestedlet": 4, "single": 3}, size=40 + 40 * s.draw(3))
        at = Attr(pick_prof(g, all_), "marker")
        place = g.s.weighted([(5, "fn"), (5, "let"), (2, "closure"), (2, "method"), (1, "tail")])
        ret = "wrap" if place in ("fn", "method") else None
        f, dr = PLACES[place](g, at, Sc(attr=at, ret=ret, retattr=at), 4)
        g.on("placement " + place)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def gen_c05(all_):
    def gen(s):
        g = G(s, {"exit": 2, "ifact": 2, "mark": 6, "never": 0, "markdiv": 2}, size=30 + 30 * s.draw(3))
        name = ["marker", "mm", "r#box", "variant", "assert_one"][g.few(5)]
        at = Attr(pick_prof(g, all_), name)
        at.mfirst = g.few(2)
        mac = ""
        if name != "marker" and g.few(2):
            g.on("user macro named marker")
            mac = "macro_rules! marker { ($e:expr) => {{ ev(77); $e }} }\n"
        place = g.s.weighted([(5, "fn"), (5, "let"), (2, "closure"), (2, "method"), (1, "tail")])
        ret = "wrap" if place in ("fn", "method") else None
        mode = g.few(3)
        def tail(s2):
            if mode == 0:
                return g.multi(s2, 3, 2)
            g.on("all values marked")
            x = g.mexpr(s2, 3, at, 2)
            # id(..) keeps the marked expression from being a branch itself
            return j("id(", x, ")") if mode == 1 else j("{ let r = ", x, "; ev(5); r }")
        if mac:
            g.w["evmx"] = 0
            g.usermac = True
        f, dr = PLACES[place](g, at, Sc(attr=at, ret=ret, retattr=at), 3, tail=tail)
        if mac:
            # a use of it inside the scope of the attribute
            f = T(f.a.replace(" { ", " { evi(78, marker!(3i64)); ", 1), f.r.replace(" { ", " { evi(78, { ev(77); 3i64 }); ", 1)) if place in ("fn", "tail") else f
            f = T(mac + f.a, mac + f.r)
        g.on("placement " + place)
        g.on("name " + name)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def gen_c06(all_):
    def gen(s):
        g = G(s, {"child": 14, "mark": 2, "never": 1, "exit": 1, "ifact": 2}, size=60 + 40 * s.draw(3))
        g.childprofs = SIMPLE if not all_ else SIMPLE + ["fn", "itdbg"]
        kind = g.alt((3, "empty"), (3, "fn"), (2, "none"), (2, "let"), (2, "closure"), (1, "method"), (1, "try"))
        g.on("outer " + kind)
        if kind in ("empty", "none"):
            ret = ["i64", "unit", "opt", "res"][g.few(4)]
            rt, fin = RETS[ret]
            sc = Sc(ret=ret, vars=("p",))
            st, s2 = g.stmts(sc, 1 + g.few(3), 3)
            c1 = g.child(s2, 3)
            c2 = g.child(s2, 3)
            e = g.iexpr(s2, 2)
            f = j(only_a("#[auto_enum] " if kind == "empty" else ""), "pub fn f(p: i64) -> %s { " % rt, st, " ", c1, " ", c2, " ", T(fin.format(e=e.a), fin.format(e=e.r)), " }")
            dr = T("note(\"ret\", M::f(d(900, 4) as i64));")
            g.wraps = 4
            return case(g, f, dr)
        name = ["marker", "outer"][g.few(2)]
        at = Attr(pick_prof(g, all_) if kind != "try" else g.s.pick(["dbg", "dsp", "err"]), name)
        if kind == "try":
            sc = Sc(ret="try", tryattr=at, vars=("p",), marks=(at,))
            st, s2 = g.stmts(sc, 1 + g.few(2), 3)
            c1 = g.child(s2, 3)
            a, b = g.tryx(s2, 1), g.tryx(s2, 1)
            f = j(only_a("#[auto_enum(%s)] " % args(at)), "pub fn f(p: i64) -> Result<i64, ", T("impl " + at.imp, at.bty + "<'static>"), "> { ", st, " ", c1, " Ok(add(", a, ", ", b, ")) }")
            dr = T("match M::f(d(900, 4) as i64) { Ok(v) => note(\"ok\", v), Err(e) => %s(e) }" % at.obs)
            g.wraps = at.count
            return case(g, f, dr)
        ret = "wrap" if kind in ("fn", "method") else None
        def tail(s2):
            return j(g.child(s2, 2), " ", g.multi(s2, 3, 2)) if kind != "let" else g.multi(s2, 3, 2)
        f, dr = PLACES[kind](g, at, Sc(attr=at, ret=ret, retattr=at, marks=(at,)), 3, tail=tail if kind != "closure" else None)
        g.wraps = at.count
        return case(g, f, dr)
    return gen


def setup(rep, flavour, feats):
    mac = build.cargo_build(flavour, feats)
    d = build.scratch(rep.prop + flavour)
    sup = rust.compile_rlib(os.path.join(build.VERIF, "rs", "rt.rs"), "sup", d)
    return mac, d, mac.flags() + ["--extern", "sup=" + sup]


def gen_c11(all_):
    from . import c11
    return c11.gen(all_)


GENS = {"C11": gen_c11, "C01": gen_c01, "C02": gen_c02, "C03": gen_c03, "C04": gen_c04, "C05": gen_c05, "C06": gen_c06}
BUDGET = {"C01": (1000, 12000), "C02": (1000, 12000), "C03": (1000, 12000), "C04": (1000, 12000), "C05": (1000, 12000), "C06": (600, 8000), "C11": (1000, 12000)}
ENOUGH = 2


def check(rep):
    rep.rule.append("Each case is a generated function with #[auto_enum] and the same function with every branch value boxed by hand, both run under the same decision scripts "
                    "(all-zero, all-max, random, then every decision seen but not taken); a case is non-trivial when it compiled and the scripts reached at least two different leaf values or a panic.")
    q, th = BUDGET[rep.prop]
    n = int((q if rep.tier == "quick" else th) * rep.scale)
    for flavour, feats, all_, share, edition in (("default", build.DEFAULT_FEATURES, False, 0.4, "2021"), ("all", build.ALL_FEATURES, True, 0.4, "2021"), ("all", build.ALL_FEATURES, True, 0.2, "2024")):
        name = rep.prop.lower() + "-" + flavour + ("-2024" if edition == "2024" else "")
        if rep.replay and rep.replay.get("generator") != name:
            continue
        mac, d, flags = setup(rep, flavour, feats)
        batch = rust.Batch(d, flags, PRELUDE, edition=edition)
        try:
            report.differential(rep, batch, GENS[rep.prop](all_), int(n * share), rep.seed, size=15, gen_name=name,
                                nontrivial=lambda c, r: r.stats.get("n_last_leaves", 0) >= 2 or r.stats.get("n_panicking_runs", 0) > 0)
        finally:
            shutil.rmtree(d, ignore_errors=True)


CHECKS = {p: check for p in GENS}
