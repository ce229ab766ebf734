"""C13: an expansion depends on nothing but the annotated code. The same items are expanded again in other processes, orders, places and layouts."""
import concurrent.futures as cf
import os, re, shutil, subprocess
from vk import build, report, choice
from vk.build import Infra
from . import c09, d12, dprops, enums

HEAD = c09.FEATURES.replace("#![feature(", "#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait, ")
KNOWN = list(d12.CORE_B) + list(d12.EXT_B) + ["Transpose"]
DERIVES = ["Clone", "Copy", "PartialEq", "Hash", "std::clone::Clone"]
TYS = ["u8", "Vec<u8>", "Box<dyn Tr>", "&'static str", "(u8, W)", "[u8; 3]", "fn(u8) -> W", "std::io::Empty", "!"]


def enum(s, lab):
    """Any enum under any traits: it need not pass the type checker."""
    n = s.weighted([(2, 1), (4, 2), (3, 3), (2, 5), (1, 12)])
    k = s.weighted([(3, 1), (3, 2), (3, 4), (2, 8), (1, 20)])
    traits = []
    for _ in range(k):
        t = s.pick(KNOWN) if s.draw(6) else s.pick(DERIVES)
        t = enums.spelling(s, t)
        if t not in traits:
            traits.append(t)
    lab |= {"enum", "traits: %s" % ("1" if len(traits) == 1 else "2-4" if len(traits) < 5 else "5+")}
    tp = enums.TPARAMS[:n]
    gen = s.draw(3) > 0 or "Transpose" in traits
    vs = []
    for i in range(n):
        ty = tp[i] if gen and (s.draw(5) or "Transpose" in traits) else s.pick(TYS)
        vs.append("%s%s(%s%s)" % (s.pick(["", "", "/// v\n", "#[doc(hidden)] "]), enums.VNAMES[i], s.pick(["", "", "#[allow(unused)] "]), ty))
    g = "<%s>" % ", ".join(s.pick(["'a, ", ""]) * (i == 0) + p + s.pick(["", "", ": Tr", ": ?Sized"]) for i, p in enumerate(tp)) if gen else ""
    wh = s.pick(["", "", " where %s: Clone, u8: Tr" % tp[0] if gen else " where u8: Tr"])
    at = lambda: "".join(s.pick(["#[allow(unused)] ", "/// doc\n", "#[must_use] ", "#[non_exhaustive] "]) for _ in range(s.draw(3)))
    return "%s#[auto_enums::enum_derive(%s%s)] %s%senum Ee%s%s { %s }" % (at(), ", ".join(traits), s.pick(["", ","]), at(), s.pick(["", "pub ", "pub(crate) "]), g, wh, ", ".join(vs))


def item(s):
    """(text, labels)"""
    lab = set()
    if s.draw(4) == 3:
        return enum(s, lab), lab
    t, l = c09.gen_one(s, 0)
    t = re.sub(r"#\[spy::\w+\(0\)\] ?", "", t)
    m = re.match(r"mod c0 \{ (.*) \}\s*$", t, re.S)
    return (m.group(1) if m else t), lab | l | {"auto_enum"}


TOK = re.compile(r'(?:br|cr|r)(#*)".*?"\1|(?:b|c)?"(?:\\.|[^"\\])*"|//[^\n]*\n|/\*.*?\*/|b?\'(?:\\[^\']*\'|[^\\\']\')|(\s+)', re.S)


def relayout(s, t):
    """Other white space and comments where white space is."""
    def sub(m):
        if m.group(2) is None:
            return m.group(0)
        return s.pick([" ", "\n", "\n\n        ", "  ", "\t", " /* note */ ", "\n    // note: `marker!` is not called here\n    "])
    return TOK.sub(sub, t)


LAYOUTS = ["plain", "again", "shuffled", "other layout"]


def source(s, texts, how):
    """The file with every item of `texts` (index -> text) at least once."""
    idx = sorted(texts)
    if how in ("plain", "again"):
        return HEAD + "".join("mod z%d { %s }\n" % (i, texts[i]) for i in idx)
    out, dup = [], []
    idx = s.shuffle(idx)
    for i in idx:
        dup.append(i)
        if s.draw(4) == 0:
            dup.append(idx[s.draw(len(idx))])
    for i in dup:
        t = texts[i]
        if how == "other layout":
            t = relayout(s, t)
        inner = "mod z%d { %s }" % (i, t)
        out.append("mod q%d { %s }" % (len(out), s.pick(["%s", "%s", "mod deep { mod er { %s } }", "// %%\nfn f() {}\n\n\n%s", "pub fn g() { %s }", "pub const C: () = { %s };", "use std::fmt; %s"]).replace("%%", "x").replace("%s", inner)))
    return HEAD + "\n".join(out) + "\n"


def expand(d, mac, name, text, edition, crate):
    os.makedirs(os.path.join(d, name, crate))
    src = os.path.join(d, name, crate, "main.rs" if crate == "m" else "lib_%s.rs" % crate)
    open(src, "w").write(text)
    e = dict(build.env(), CARGO_PKG_NAME=crate, CARGO_CRATE_NAME=crate, CARGO_MANIFEST_DIR=os.path.dirname(src))
    args = [build.rustc(), "--error-format=json", "--edition", edition, "--crate-type", "rlib", "--crate-name", crate, "-Zunpretty=expanded"] + mac.flags() + [src]
    try:
        p = subprocess.run(args, cwd=os.path.dirname(src), env=e, capture_output=True, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        raise Infra("expansion timed out")
    if "mod z" not in p.stdout:
        return None
    # {index: [expansion]}
    res, lines, i = {}, p.stdout.split("\n"), 0
    while i < len(lines):
        m = re.match(r"( *)mod z(\d+) \{$", lines[i])
        if m:
            j = i + 1
            while j < len(lines) and lines[j] != m.group(1) + "}":
                j += 1
            res.setdefault(int(m.group(2)), []).append(lines[i + 1:j])
            i = j
        i += 1
    shutil.rmtree(os.path.join(d, name))
    return res


def norm(ls):
    # the printer breaks lines by the indentation
    # and prints the comments of the source
    t = TOK.sub(lambda m: m.group(0) if m.group(2) is not None or not re.match(r"//(?![/!])|/\*(?![*!])", m.group(0)) else "", "\n".join(ls) + "\n")
    t = re.sub(r"\s+", "", t)
    return re.sub(r",([)\]}>])", r"\1", t)


ENUM = re.compile(r"\benum (__Enum\d+)")


def shadowed(ls):
    """An enum generated in the scope of one with the same name."""
    depth, open_ = 0, []
    for l in ls:
        ind = len(l) - len(l.lstrip())
        if not l.strip():
            continue
        open_ = [(n, k) for n, k in open_ if k <= ind]
        m = ENUM.search(l)
        if m and re.match(r"\s*(#|enum)", l):
            if any(n == m.group(1) for n, _ in open_):
                return m.group(1)
            open_.append((m.group(1), ind))
    return None


def compare(s, d, mac, key, texts, edition):
    """{index: why} for the items that expand differently; None when the file does not expand."""
    outs = []
    for k, how in enumerate(LAYOUTS):
        r = expand(d, mac, "%s_%d" % (key, k), source(s, texts, how), edition, "m" if k < 2 else "other_crate")
        if r is None:
            return None, {}
        outs.append(r)
    bad, shown = {}, {}
    for i in texts:
        xs = [[norm(x) for x in o.get(i, [])] for o in outs]
        if not xs[0]:
            continue
        shown[i] = "\n".join(outs[0][i][0])
        a = xs[0][0]
        for how, x in zip(LAYOUTS, xs):
            y = next((y for y in x if y != a), None)
            if y is not None:
                j = next((k for k in range(min(len(a), len(y))) if a[k] != y[k]), min(len(a), len(y)))
                bad[i] = "%s: `..%s..` instead of `..%s..`" % (how, y[max(0, j - 60):j + 60], a[max(0, j - 60):j + 60])
                break
            if not x:
                bad[i] = "%s: not expanded" % how
                break
        else:
            n = shadowed(outs[0][i][0])
            if n:
                bad[i] = "the generated enum %s is defined in the scope of another one with that name" % n
    return bad, shown


def check(rep):
    rep.rule.append("Random annotated functions, lets and enums (they have to parse, not to type-check), expanded by rustc in four files: as generated, again, in another order with repetitions at other places in another crate, and with other white space and comments; "
                    "the expansions of an item must be the same. Non-trivial: distinct items whose expansion contains a generated enum or implementation.")
    rep.assumptions.append("expansions are compared as text without white space and trailing commas, as rustc's printer breaks lines by the indentation")
    mac = build.cargo_build("all", build.ALL_FEATURES)
    d = build.scratch("C13")
    try:
        if rep.replay:
            r = rep.replay
            texts = {i: item(choice.Src(choices=c))[0] for i, c in enumerate(r["items"])}
            bad, _ = compare(choice.Src(seed=r["layout"]), d, mac, "r", texts, r["edition"])
            for i in sorted(bad or {})[:1]:
                rep.violation(r["key"], bad[i] + "\n" + texts[i], {k: r[k] for k in ("items", "layout", "edition")})
            return
        n = int((600 if rep.tier == "quick" else 15000) * rep.scale)
        per = 45
        chunks = []
        for k in range(0, n, per):
            ch = []
            for i in range(k, min(n, k + per)):
                s = choice.Src(seed="C13/%d/%d" % (rep.seed, i))
                t, lab = item(s)
                ch.append((t, lab, s.log))
            chunks.append(ch)

        def one(k):
            ch = chunks[k]
            ed = "2024" if k % 8 == 7 else "2018" if k % 8 == 3 else "2021"
            lay = "C13/%d/layout/%d" % (rep.seed, k)
            texts = {i: t for i, (t, _, _) in enumerate(ch)}
            bad, shown = compare(choice.Src(seed=lay), d, mac, "c%d" % k, texts, ed)
            if bad is None:
                # one of them does not parse: by tens
                bad, shown = {}, {}
                for j in range(0, len(ch), 10):
                    b, sh = compare(choice.Src(seed=lay), d, mac, "c%d_%d" % (k, j), {i: t for i, t in texts.items() if j <= i < j + 10}, ed)
                    if b is None:
                        for i in range(j, min(len(ch), j + 10)):
                            b, sh = compare(choice.Src(seed=lay), d, mac, "c%d_i%d" % (k, i), {i: texts[i]}, ed)
                            bad.update(b or {})
                            shown.update(sh)
                        continue
                    bad.update(b)
                    shown.update(sh)
            return ed, lay, bad, shown
        with cf.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(chunks))))
        fails, inv = [], 0
        for k, (ed, lay, bad, shown) in enumerate(outs):
            for i, (t, lab, log) in enumerate(chunks[k]):
                if i not in shown:
                    inv += 1
                    continue
                rep.evaluations += 1
                rep.label(lab | {"edition " + ed})
                if "__Enum" in shown[i] or "#[automatically_derived]" in shown[i]:
                    rep.nontrivial.add(report.digest(t))
                    if len(rep.nontrivial) in (3, 400, 1500):
                        rep.sample({"source": t})
                if i in bad:
                    fails.append((len(log), k, i))
        rep.extra["items_that_do_not_parse"] = inv
        if inv > n // 2:
            raise Infra("%d of %d items do not expand" % (inv, n))
        rep.extra["failing_cases"] = len(fails)
        for _, k, i in sorted(fails)[:2]:
            ed, lay, bad, _ = outs[k]
            why, items = bad[i], [chunks[k][i][2]]
            nn = [0]

            def fails_with(logs):
                nn[0] += 1
                b, _ = compare(choice.Src(seed=lay), d, mac, "s%d_%d_%d" % (k, i, nn[0]), {j: item(choice.Src(choices=c))[0] for j, c in enumerate(logs)}, ed)
                return b
            b = fails_with(items)
            if b:
                def test_many(lists):
                    with cf.ThreadPoolExecutor(8) as ex:
                        def t1(l):
                            try:
                                nn[0] += 1
                                b, _ = compare(choice.Src(seed=lay), d, mac, "t%d_%d_%d_%d" % (k, i, nn[0], id(l)), {0: item(choice.Src(choices=l))[0]}, ed)
                                return bool(b)
                            except RecursionError:
                                return False
                        return list(ex.map(t1, lists))
                m = choice.shrink(items[0], test_many, rounds=4)
                b2 = fails_with([m])
                if b2:
                    items, why = [m], b2[0]
            else:
                # it takes others: halves of the batch that still fail
                items = [c[2] for c in chunks[k]]
                while len(items) > 1:
                    h = len(items) // 2
                    for part in (items[:h], items[h:]):
                        b = fails_with(part)
                        if b:
                            items, why = part, b[min(b)]
                            break
                    else:
                        break
            texts = [item(choice.Src(choices=c))[0] for c in items]
            rep.violation("c13:" + report.digest("\n".join(texts)), why + "\n" + "\n".join(texts[:5]), {"items": items, "layout": lay, "edition": ed})
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"C13": check}
