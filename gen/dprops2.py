"""D05 (Error) and D07 (Transpose)."""
import shutil
from vk import build, rust, report
from vk.rust import Case
from . import enums, dprops

ERRS = [("std::num::ParseIntError", '"x1".parse::<i32>().unwrap_err()'), ("fmt::Error", "fmt::Error"),
        ("io::Error", 'io::Error::new(io::ErrorKind::Other, Cause { n: d.seed % 50, next: Some(Box::new(Cause { n: 1, next: None })) })'),
        ("std::str::Utf8Error", "std::str::from_utf8(b\"a\\xff\").unwrap_err()"),
        ("Cause", "Cause { n: d.seed % 9, next: Some(Box::new(Cause { n: 2, next: Some(Box::new(Cause { n: 3, next: None })) })) }"),
        ("std::string::FromUtf8Error", "String::from_utf8(vec![0xff]).unwrap_err()")]


def gen_error(rounds):
    def gen(s):
        traits = ["Error"] + s.subset(["Display", "Debug"])
        extras = []
        if s.chance(1, 4):
            extras = [s.pick(["fmt::Write", "Read", "fmt::LowerHex", "Deref", "Future"])]
        attr = "#[auto_enums::enum_derive(%s)]" % enums.trait_list(s, traits + extras)
        def value(k):
            if not extras and s.chance(1, 3):
                ty, e = s.pick(ERRS)
                return "", e, ty
            return "", "p::<%d>(d)" % k, "P<%d>" % k
        sh = enums.shape(s, traits + extras, attr, value=value, kinds=("box",))
        body = []
        for v, pre, expr, ty in sh.variants:
            body.append("    cx.same(\"%s\", |d| { %s err_enum::<e::Tt, %s>(e::Tt::%s(%s), |e| match e { e::Tt::%s(x) => x, _ => unreachable!() }, d) }, "
                        "|d| { %s err_bare::<%s>(%s, d) });" % (v, pre, ty, v, expr, v, pre, ty, expr))
            body.append("    cx.same(\"fmt %s\", |d| drive_ref::<e::Tt>(e::Tt::%s(%s), d, &[debug_op, display_op]), "
                        "|d| drive_ref::<%s>(%s, d, &[debug_op, display_op]));" % (v, v, expr, ty, expr))
        c = Case(dprops.case_src(sh, traits, body, s.draw(1 << 20), rounds))
        c.labels = sh.labels | {"listed " + " ".join(sorted(traits))}
        c.meta["show"] = sh.decl + body[0]
        return c
    return gen


PAYS = [("Pay<%d>", "Pay::<@>(%s)"), ("u64", "%s"), ("String", "format!(\"s{}\", %s)"), ("Vec<u8>", "vec![7u8; ((%s) %% 5) as usize]"),
        ("()", "{ %s; () }"), ("Box<Pay<%d>>", "Box::new(Pay::<@>(%s))"), ("Option<u64>", "Some::<u64>(%s)"), ("Result<u64, u8>", "Ok::<u64, u8>(%s)"), ("(u8, Pay<%d>)", "(3u8, Pay::<@>(%s))")]


# type parameters that a macro might be tempted to introduce itself
HOSTILE = ["T", "R", "K", "E0", "E1", "E2", "T0", "T1", "U0", "U1", "Err0", "Ok1", "Item", "Output", "Variant0", "_E", "_T"]


def gen_transpose(rounds):
    def gen(s):
        n = enums.nvariants(s)
        names = s.shuffle(enums.VNAMES)[:n]
        n = min(n, len(enums.TPARAMS))
        tp = s.shuffle(list(dict.fromkeys(enums.TPARAMS + HOSTILE)))[:n]
        names = names[:n]
        extras = s.subset(["Debug", "Display", "Clone"], 1, 4)
        attr = "#[auto_enums::enum_derive(%s)]" % ", ".join(s.shuffle(["Transpose"] + extras))
        decl = "%s\npub enum Ee<%s%s> { %s }\n" % (attr, ", ".join(tp), s.pick(["", ","]), ", ".join("%s(%s)" % x for x in zip(names, tp)))
        def tys(k0):
            out = []
            for i in range(n):
                t, e = s.pick(PAYS)
                k = k0 + i
                out.append((t % k if "%" in t else t, e.replace("@", str(k))))
            return out
        a, b = tys(1), tys(50)
        x, xe = s.pick([("Pay<90>", "Pay::<90>(%s)"), ("String", "format!(\"x{}\", %s)")])
        def al(name, f):
            return "pub type %s = Ee<%s>;\n" % (name, ", ".join(f(i) for i in range(n)))
        mod = decl + al("Oo", lambda i: "Option<%s>" % a[i][0]) + al("Rr", lambda i: "Result<%s, %s>" % (a[i][0], b[i][0])) + \
            al("Ok1", lambda i: "Result<%s, %s>" % (a[i][0], x)) + al("Er1", lambda i: "Result<%s, %s>" % (x, a[i][0])) + \
            al("Aa", lambda i: a[i][0]) + al("Bb", lambda i: b[i][0])
        for ty, f in (("Aa", "ta"), ("Bb", "tb")):
            mod += "pub fn %s(e: %s) { match e { %s } }\n" % (f, ty, " ".join("Ee::%s(x) => note(\"variant %d\", x)," % (names[i], i) for i in range(n)))
        body = []
        def val(t, e, seed="d.seed % 97"):
            return e % seed
        for i in range(n):
            va, vb, vx = val(*a[i]), val(*b[i]), val(x, xe)
            nm = names[i]
            body.append("    cx.same(\"opt %s\", |d| { let e: e::Oo = if d.r.b(1, 2) { e::Ee::%s(None) } else { e::Ee::%s(Some(%s)) }; match e.transpose() { None => note(\"none\", ()), Some(v) => e::ta(v) } }, "
                        "|d| if d.r.b(1, 2) { note(\"none\", ()) } else { note(\"variant %d\", %s) });" % (nm, nm, nm, va, i, va))
            body.append("    cx.same(\"res %s\", |d| { let e: e::Rr = if d.r.b(1, 2) { e::Ee::%s(Ok(%s)) } else { e::Ee::%s(Err(%s)) }; match e.transpose() { Ok(v) => { note(\"ok\", ()); e::ta(v) }, Err(v) => { note(\"err\", ()); e::tb(v) } } }, "
                        "|d| if d.r.b(1, 2) { note(\"ok\", ()); note(\"variant %d\", %s) } else { note(\"err\", ()); note(\"variant %d\", %s) });" % (nm, nm, va, nm, vb, i, va, i, vb))
            body.append("    cx.same(\"ok %s\", |d| { let e: e::Ok1 = if d.r.b(1, 2) { e::Ee::%s(Ok(%s)) } else { e::Ee::%s(Err(%s)) }; match e.transpose_ok() { Ok(v) => { note(\"ok\", ()); e::ta(v) }, Err(v) => note(\"err\", v) } }, "
                        "|d| if d.r.b(1, 2) { note(\"ok\", ()); note(\"variant %d\", %s) } else { note(\"err\", %s) });" % (nm, nm, va, nm, vx, i, va, vx))
            body.append("    cx.same(\"err %s\", |d| { let e: e::Er1 = if d.r.b(1, 2) { e::Ee::%s(Ok(%s)) } else { e::Ee::%s(Err(%s)) }; match e.transpose_err() { Ok(v) => note(\"ok\", v), Err(v) => { note(\"err\", ()); e::ta(v) } } }, "
                        "|d| if d.r.b(1, 2) { note(\"ok\", %s) } else { note(\"err\", ()); note(\"variant %d\", %s) });" % (nm, nm, vx, nm, va, vx, i, va))
        src = "pub use e::run;\npub mod e {\nuse sup::*;\nuse super::e;\n%s\npub fn run(cx: &mut Cx) {\n    cx.seed = %d;\n    cx.rounds = %d;\n%s\n}\n}\n" % (
            mod, s.draw(1 << 20), rounds, "\n".join(body))
        c = Case(src)
        c.labels = {"variants:%s" % (n if n < 6 else "6+")} | {"extra " + e for e in extras}
        c.meta["show"] = mod
        return c
    return gen


def run(rep, gens, quick, thorough, rule, rmin=6):
    m, d, flags = dprops.setup(rep)
    batch = rust.Batch(d, flags, dprops.PRELUDE)
    rep.rule.append(rule)
    try:
        for name, g in gens:
            report.differential(rep, batch, g, dprops.n_cases(rep, quick, thorough), rep.seed, gen_name=name,
                                nontrivial=lambda c, r: r.stats.get("n_events", 0) >= rmin)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def d05(rep):
    run(rep, [("error", gen_error(16 if rep.tier == "quick" else 64))], 400, 6000,
        "Generated error enums; every variant is walked (description, Display, Debug, source, downcast, the chain below it, random format "
        "specifications) next to the bare error; non-trivial: compiled and at least 6 events observed.")


def d07(rep):
    run(rep, [("transpose", gen_transpose(6 if rep.tier == "quick" else 12))], 300, 4000,
        "Generated all-generic enums; for every variant transpose on Option and Result, transpose_ok and transpose_err are applied to both "
        "outcomes with random payload types and the variant, payload and drops compared with the construction; non-trivial: compiled and at least 6 events.")


CHECKS = {"D05": d05, "D07": d07}
