"""Enum shapes and trait tables for the enum_derive properties (D01..D15)."""

CORE_DEPS = {
    "DoubleEndedIterator": ["Iterator"], "ExactSizeIterator": ["Iterator"], "FusedIterator": ["Iterator"],
    "TrustedLen": ["Iterator"], "BufRead": ["Read"], "Error": ["Display", "Debug"], "DerefMut": ["Deref"],
    "IndexMut": ["Index"], "Fn": ["FnMut", "FnOnce"], "FnMut": ["FnOnce"],
    "rayon::IndexedParallelIterator": ["rayon::ParallelIterator"],
}

# supertraits that are not added automatically and so have to be listed
EXPLICIT = {
    "futures03::AsyncBufRead": ["futures03::AsyncRead"],
    "tokio1::AsyncBufRead": ["tokio1::AsyncRead"], "tokio03::AsyncBufRead": ["tokio03::AsyncRead"],
    "tokio02::AsyncBufRead": ["tokio02::AsyncRead"],
    "tokio01::AsyncRead": ["Read"], "tokio01::AsyncWrite": ["Write"],
}


def with_explicit(traits):
    out = list(traits)
    for t in traits:
        out += [x for x in EXPLICIT.get(t, []) if x not in out]
    return out


ALIASES = {
    "Read": ["io::Read"], "BufRead": ["io::BufRead"], "Write": ["io::Write"], "Seek": ["io::Seek"],
    "Debug": ["fmt::Debug"], "Display": ["fmt::Display"], "Error": ["error::Error"],
}
FULL = {  # documented spellings: "Name" / "module::Name"
}

PINNING = {"Future", "Coroutine", "futures03::Stream", "futures03::Sink", "futures03::AsyncRead",
           "futures03::AsyncWrite", "futures03::AsyncSeek", "futures03::AsyncBufRead", "http_body1::Body"} | {
    "tokio%s::Async%s" % (v, t) for v in ("1", "03", "02") for t in ("Read", "Write", "Seek", "BufRead")}

ITER = {"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator"}
FMT_ALL = ["Debug", "Display", "fmt::Binary", "fmt::Octal", "fmt::LowerHex", "fmt::UpperHex", "fmt::LowerExp",
           "fmt::UpperExp", "fmt::Pointer"]

# field kinds (beyond P<K> itself, which implements everything) and the traits they support
KINDS = {
    "box": ITER | {"Read", "BufRead", "Write", "Seek", "Debug", "Display", "Error", "Fn", "FnMut", "FnOnce",
                   "serde::Serialize"},
    "mut": ITER | {"Read", "BufRead", "Write", "Seek", "fmt::Write", "FnMut", "FnOnce", "AsRef", "AsMut",
                   "serde::Serialize"} | set(FMT_ALL[:-1]),
    "pinbox": {"Future", "Coroutine", "futures03::Stream", "futures03::Sink", "futures03::AsyncRead",
               "futures03::AsyncWrite", "futures03::AsyncBufRead", "futures03::AsyncSeek", "http_body1::Body"} | {
        "tokio1::Async" + t for t in ("Read", "Write", "BufRead", "Seek")} | {
        "tokio03::Async" + t for t in ("Read", "Write", "BufRead", "Seek")} | {"Debug", "Display"},
}

# traits with a type parameter of their own: derive_utils only adds bounds for fields that mention a type parameter
GENERIC_ONLY = {"Extend", "AsRef", "AsMut", "Index", "IndexMut", "RangeBounds", "rayon::ParallelExtend"}

# traits with associated types and ordinary methods: if the first field mentions a type parameter, derive_utils only
# equates the associated types of other fields that mention one too
ASSOC = {"Iterator", "Deref", "futures03::Stream", "http_body1::Body", "futures01::Future", "futures01::Stream",
         "futures01::Sink", "rayon::ParallelIterator"}

VNAMES = ["A", "B", "C", "D", "E0", "F", "G", "H", "Left", "Right", "Some", "None", "Ok", "Err", "Next", "r#Type",
          "lower", "X_Y", "Poll", "Ready", "Pin", "Box", "String", "Option", "É", "U", "W", "Zz", "V1", "V2", "V3"]
TPARAMS = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "L", "M", "O", "Q", "S", "U", "V", "W", "X", "Y", "Z",
           "T", "R", "K", "E0", "T0", "T1", "U0", "Item", "Output", "Acc", "Iter", "_T", "Fut"]


def closure(traits):
    out, todo = [], list(traits)
    while todo:
        t = todo.pop(0)
        if t not in out:
            out.append(t)
            todo += CORE_DEPS.get(t, [])
    return out


def spelling(s, t):
    return s.pick([t] + ALIASES.get(t, []))


def trait_list(s, traits, shuffle=True):
    """A written trait list implementing exactly `traits` and what they imply."""
    traits = list(traits)
    # implied ones may be left out or listed
    implied = set()
    for t in traits:
        implied |= set(closure([t])[1:])
    listed = []
    for t in dict.fromkeys(traits):
        if t in implied and s.chance(1, 3):
            continue
        listed.append(t)
    for t in sorted(implied - set(traits)):
        if s.chance(1, 4):
            listed.append(t)
    if shuffle:
        listed = s.shuffle(listed)
    txt = ", ".join(spelling(s, t) for t in listed)
    if s.chance(1, 6):
        txt += ","
    return txt


class Shape:
    def __init__(self):
        self.decl = ""      # the enum with attributes (attribute list inserted by the caller)
        self.alias = ""     # type alias En -> concrete type
        self.variants = []  # (name, pre, value expr, concrete type)
        self.generic = False
        self.labels = set()


def nvariants(s):
    return s.weighted([(10, 2), (10, 3), (4, 1), (5, 4), (3, 5), (2, 7), (1, 12), (1, 19)])


def shape(s, traits, attr, value=None, kinds=("box", "mut", "pinbox"), name="Ee", std=None, extra_bounds=(),
          max_variants=99, generic_ok=True, projected=True, vnames=None, tparams=None):
    """attr: attribute text put above the enum. value(k) -> (pre, expr, type) of the probe with index k.
    std: list of (type, expr) usable as additional concrete leaf types."""
    sh = Shape()
    cl = closure(traits)
    value = value or (lambda k: ("", "p::<%d>(d)" % k, "P<%d>" % k))
    okk = [k for k in kinds if all(t in KINDS[k] for t in cl)]
    n = min(nvariants(s), max_variants)
    names = vnames[:n] if vnames else s.shuffle(VNAMES)[:n]
    tp = tparams[::-1] if tparams else s.shuffle(TPARAMS)
    params, args, where, fields = [], [], [], []
    lt = cp = False
    prev = None
    must_generic = any(t in GENERIC_ONLY for t in cl)
    marker = any(t in ('FusedIterator', 'TrustedLen') for t in cl)
    n = min(n, len(tp) - 1)
    for i in range(n):
        k = i + 1
        pre, expr, ty = value(k)
        kind = s.weighted([(6, "p")] + [(3, x) for x in okk] + ([(5, "std")] if std else []) + ([(1, "same")] if prev else []))
        if kind == "std":
            ty, expr = s.pick(std)
            pre = ""
        elif kind == "p" and not ty.startswith("P<"):
            kind = "std"
        elif kind == "box":
            ty, expr = "Box<%s>" % ty, "Box::new(%s)" % expr
        elif kind == "pinbox":
            ty, expr = "std::pin::Pin<Box<%s>>" % ty, "Box::pin(%s)" % expr
        elif kind == "mut":
            pre, expr = "let mut h = %s;" % expr, "&mut h"
            ty = "&'x mut " + ty
        elif kind == "same":
            pre, expr, ty, fty = prev
            fields.append((names[i], fty))
            sh.variants.append((names[i], pre, expr, ty))
            sh.labels.add("repeated field type")
            continue
        sh.labels.add("field:" + kind)
        gen = must_generic or (kind == 'std' and marker) or (generic_ok and s.chance(1, 2))
        if gen and tp:
            a = tp.pop()
            b = s.weighted([(4, ""), (1, ": Sized"), (1, ": ?Sized + Sized"), (1, "where")])
            if b == "where":
                where.append("%s: Sized" % a)
                b = ""
            params.append((a, b))
            args.append(ty)
            fty = a
            sh.labels.add("generic")
            if not must_generic and projected and s.chance(1, 10):
                fty = s.pick(["<%s as Has>::Ty", "%s::Ty"]) % a
                params[-1] = (a, ": Has")
                args[-1] = "Hold<%s>" % ty
                sh.labels.add("projected")
        elif kind == "mut":
            fty = ty.replace("'x", "'a")
            lt = True
            sh.labels.add("lifetime")
        elif kind == "p" and not cp and ty.startswith("P<") and s.chance(1, 4):
            fty = "P<N>"
            cp = k
            sh.labels.add("const generic")
        else:
            fty = ty
            sh.labels.add("concrete")
        fields.append((names[i], fty))
        prev = (pre, expr, ty, fty)
        if i == 0 and fty not in (ty, "P<N>") and not fty.startswith("&'a") and any(t in ASSOC for t in cl):
            must_generic = True
        sh.variants.append((names[i], pre, expr, ty))
    gp = (["'a"] if lt else []) + [a + b for a, b in params] + (["const N: u64"] if cp else [])
    ga = (["'x"] if lt else []) + args + ([str(cp)] if cp else [])
    if params and s.chance(1, 6) and not cp:
        gp[-1] += " = " + args[-1] if "'x" not in args[-1] else ""
    sh.lt, sh.params, sh.const, sh.where = lt, list(params), cp, list(where)
    vis = s.pick(["pub", "pub(crate)", "pub(super)"])
    vd = []
    for v, f in fields:
        doc = s.weighted([(6, ""), (1, "/// doc of %s\n    " % v), (1, "#[allow(dead_code)] ")])
        vd.append("%s%s(%s)%s" % (doc, v, f, ""))
    body = ",\n    ".join(vd) + s.pick([",", ""])
    w = ("\nwhere\n    " + ", ".join(where) + s.pick([",", ""])) if where else ""
    pre_attr = s.weighted([(6, ""), (1, "/// Documented.\n"), (1, "#[allow(unused)]\n")])
    post_attr = s.weighted([(6, ""), (1, "/// Documented.\n"), (1, "#[allow(unused)]\n")])
    sh.decl = "%s%s\n%s%s enum %s%s%s {\n    %s\n}\n" % (
        pre_attr, attr, post_attr, vis, name, "<%s%s>" % (", ".join(gp), s.pick(["", ","])) if gp else "", w, body)
    # the concrete type, for use in a fn generic over nothing; 'x becomes '_
    sh.concrete = "%s%s" % (name, "<%s>" % ", ".join(ga).replace("'x", "'_") if ga else "")
    sh.labels.add("variants:%s" % (n if n < 6 else "6+"))
    return sh
