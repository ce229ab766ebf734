"""C11: the attribute at every placement, on functions with every feature a function can have."""
from .cgen import T, j, only_a, Attr, Sc, G
from . import cprops
from .cprops import args, RETS

ATTRS = ["/// doc\n", "#[doc = \"text\"] ", "#[inline] ", "#[inline(never)] ", "#[allow(unused)] ", "#[must_use] ", "#[cfg(all())] ", "#[cold] ",
         "#[deprecated] ", "#[cfg_attr(all(), inline)] ", "#[rustfmt::skip] ", "/** block doc */ ", "#[allow(clippy::all)] ", "#[track_caller] "]
LETATTRS = ["#[allow(unused)] ", "#[rustfmt::skip] ", "#[cfg(all())] ", "#[allow(clippy::all, unused_mut)] "]


class Sig:
    def __init__(self, g, place, at):
        s = g.s
        self.g = g
        self.gens, self.wheres, self.params, self.argx = [], [], [], []
        self.vars, self.caps, self.pre, self.items = ["p"], [], "", ""
        self.static_ok = at.prof == "err"
        lts = not self.static_ok
        ctx = s.weighted([(4, "free"), (4, "inherent"), (2, "traitimpl"), (2, "traitdefault"), (1, "nested"), (1, "generic impl"), (1, "lifetime impl"), (1, "macro")])
        if self.static_ok and ctx == "lifetime impl":
            ctx = "free"
        self.ctx = ctx
        method = ctx in ("inherent", "traitimpl", "traitdefault", "generic impl", "lifetime impl")
        if method:
            g.on("method in " + ctx)
        else:
            g.on(ctx + " function")
        # receiver
        recv, self.before, self.recvcall = "", "", ""
        elided = named = False
        self.selfname = "MyS"
        if method:
            rs = [(3, "self"), (1, "mut self"), (2, "")]
            rs += [(1, "self: Box<Self>"), (1, "self: std::rc::Rc<Self>")]
            if lts:
                rs += [(4, "&self"), (2, "&'a self"), (3, "&mut self"), (1, "self: &Self"), (1, "self: std::pin::Pin<&mut Self>"), (1, "&'a mut self")]
            if ctx == "traitdefault":
                rs = [x for x in rs if x[1] not in ("self: Box<Self>", "self: std::rc::Rc<Self>")]
            recv = s.weighted(rs)
            g.on("receiver " + (recv or "none"))
            me = {"inherent": "self.0", "traitimpl": "self.0", "traitdefault": "self.get()", "generic impl": "Into::<i64>::into(self.0)", "lifetime impl": "(*self.0)"}[ctx]
            make = {"generic impl": "M::MyS(6i32)", "lifetime impl": "M::MyS(&77)"}.get(ctx, "M::MyS(6)")
            if recv:
                self.vars.append(me)
            if recv in ("self", "mut self", "&self", "&'a self", "self: &Self"):
                self.caps.append("self")
            if recv in ("&mut self", "&'a mut self"):
                if ctx in ("inherent", "traitimpl"):
                    self.pre += "self.0 += 1; "
                if s.chance(1, 2):
                    self.pre += "let me = &*self; "
                    self.vars[-1] = me.replace("self", "me")
                    self.caps.append("me")
            if recv.startswith("self: std::pin"):
                self.pre += "let s0 = %s; " % me
                self.vars[-1] = "s0"
            if recv == "mut self" and ctx in ("inherent", "traitimpl"):
                self.pre += "self.0 += 1; "
            elided = recv in ("&self", "&mut self", "self: &Self", "self: std::pin::Pin<&mut Self>")
            named = recv in ("&'a self", "&'a mut self")
            mk = {"self: Box<Self>": "let s = Box::new(%s); ", "self: std::rc::Rc<Self>": "let s = std::rc::Rc::new(%s); ",
                  "self: std::pin::Pin<&mut Self>": "let mut s0 = %s; let s = std::pin::Pin::new(&mut s0); ", "self: &Self": "let s0 = %s; let s = &s0; "}.get(recv, "let mut s = %s; ")
            if recv:
                self.before = mk % make
                self.recvcall = "s."
            else:
                self.recvcall = {"traitimpl": "<M::MyS as M::Tr>::", "traitdefault": "<M::MyS as M::Tr>::", "generic impl": "M::MyS::<i32>::"}.get(ctx, "M::MyS::")
            if ctx in ("inherent", "traitdefault") and s.chance(1, 3):
                self.vars.append("Self::K")
        self.recv = recv
        # return lifetime: '_ when exactly one elided reference, 'a otherwise
        self.lt = "'static"
        if ctx == "lifetime impl":
            self.lt = "'x"
            if elided or named:
                # 'x outlives the borrow of self
                self.lt = "'_" if elided else "'a"
        elif elided:
            self.lt = "'_"
        elif named:
            self.lt = "'a"
        elif lts and not (method and recv and ctx == "lifetime impl") and s.chance(1, 2):
            self.lt = "'a"
        if self.lt == "'a":
            self.gens.append("'a")
            named = True
        # parameters
        pat, arg = s.pick([("p: i64", "{}"), ("mut p: i64", "{}"), ("(p, _): (i64, i64)", "({}, 2)"), ("Pt { x: p, .. }: Pt", "Pt {{ x: {}, y: 2 }}"),
                           ("[p, ..]: [i64; 3]", "[{}, 2, 3]"), ("p @ _: i64", "{}"), ("Wr { w: p }: Wr<i64>", "Wr {{ w: {} }}"), ("(p, (_, mut z)): (i64, (i64, i64))", "({}, (1, 2))"),
                           ("(p): (i64)", "{}"), ("Pt { x: p, y: _ }: self::Pt", "Pt {{ x: {}, y: 2 }}"), ("#[allow(unused)] p: i64", "{}"), ("ref p0: i64", "{}")])
        if pat == "ref p0: i64":
            self.pre = "let p = *p0; " + self.pre
        if pat.startswith("(p, (_"):
            self.vars.append("z")
        if pat != "p: i64":
            g.on("parameter pattern")
        self.params.append(pat)
        self.argx.append(arg.format("d(900, 4) as i64"))
        tb = {"'static": "'static", "'a": "'a", "'x": "'x", "'_": None}[self.lt]
        tg = [n for n, num in (("T", 2), ("N", 1), ("F", 1), ("apit", 1), ("ref", 2), ("str", 1), ("slice", 1), ("fnptr", 1), ("dyn", 1), ("unit", 1), ("PhantomU", 1)) if s.chance(num, 5)]
        # with an elided receiver, other captures would need a named lifetime
        cap = tb is not None
        self.apit = False
        for n in s.shuffle(tg):
            bound = (" + " + tb) if cap else ""
            if n == "T" :
                inwhere = s.chance(1, 3)
                b = "Copy + Into<i64>" + bound
                if inwhere:
                    self.gens.append("T")
                    self.wheres += s.pick([["T: " + b], ["T: Copy" + bound, "T: Into<i64>"]])
                else:
                    self.gens.append("T: " + b)
                self.params.append("t: T")
                self.argx.append(s.pick(["7i32", "3u8", "2i64", "true"]))
                self.vars.append("Into::<i64>::into(t)")
                if cap:
                    self.caps.append("t")
                g.on("type parameter")
            elif n == "N":
                self.gens.append("const N: usize")
                self.params.append("arr: [i64; N]")
                self.argx.append("[4, 5, 6]")
                self.vars += ["arr[0]", "(N as i64)"]
                self.caps.append("arr")
                g.on("const parameter")
            elif n == "F":
                self.gens.append("F: Fn(i64) -> i64 + Copy" + bound)
                self.params.append("fun: F")
                self.argx.append("|x: i64| evi(990, x + 1)")
                self.vars.append("fun(4)")
                if cap:
                    self.caps.append("fun")
                g.on("type parameter")
            elif n == "apit":
                self.apit = True
                self.params.append("ap: impl Fn(i64) -> i64 + Copy" + bound)
                self.argx.append("|x: i64| evi(991, x + 1)")
                self.vars.append("ap(4)")
                if cap:
                    self.caps.append("ap")
                g.on("impl Trait parameter")
            elif n in ("ref", "str", "slice", "dyn"):
                l = {"'a": "'a ", "'x": "'x ", "'static": "'static "}.get(self.lt)
                if l is None or self.static_ok:
                    l = "'static "
                ty, a, v = {"ref": ("%si64", "&9", "*rf"), "str": ("%sstr", "\"abc\"", "(st.len() as i64)"), "slice": ("%s[i64]", "&[1, 2]", "sl[0]"),
                            "dyn": ("%sdyn Fn(i64) -> i64", "&|x: i64| evi(992, x - 1)", "dy(4)")}[n]
                nm = {"ref": "rf", "str": "st", "slice": "sl", "dyn": "dy"}[n]
                if n == "dyn":
                    ty = "%s(dyn Fn(i64) -> i64" + (" + " + l.strip() if l.strip() != "'static" else "") + ")"
                self.params.append("%s: &%s" % (nm, ty % l))
                self.argx.append(a)
                self.vars.append(v)
                self.caps.append(nm)
                g.on("reference parameter")
            elif n == "fnptr":
                self.params.append("fp: for<'z> fn(&'z i64) -> i64")
                self.argx.append("|x| *x + 2")
                self.vars.append("fp(&3)")
                self.caps.append("fp")
            elif n == "PhantomU":
                self.gens.append("U: Default")
                if cap:
                    self.wheres.append("U: " + tb)
                self.params.append("_: std::marker::PhantomData<U>")
                self.argx.append("std::marker::PhantomData::<u8>")
                g.on("phantom type parameter")
            else:
                self.params.append("_: ()")
                self.argx.append("()")
        if method and recv and s.chance(1, 6) and ctx != "traitdefault":
            self.wheres.append("Self: Sized")
        if ctx == "traitdefault" and (recv.startswith(("self", "mut")) or not recv or "self" in self.caps or True):
            self.wheres.append("Self: Sized")
            if "self" in self.caps and recv in ("self", "mut self"):
                self.wheres.append("Self: 'static" if self.lt == "'static" else "Self: " + self.lt)
        self.gens.sort(key=lambda x: 0 if x.startswith("'") else 1)
        self.vis = "" if ctx in ("traitimpl", "traitdefault") else s.pick(["pub ", "pub(crate) ", "pub(super) ", "pub(in super) "])
        qs = [(8, ""), (2, "unsafe "), (1, "extern \"C-unwind\" "), (1, "extern \"Rust\" "), (1, "unsafe extern \"C-unwind\" ")]
        if ctx == "macro":
            qs = [(1, "")]
        if ctx in ("free", "inherent", "nested", "generic impl"):
            qs += [(2, "async ")]
        if ctx in ("traitimpl", "traitdefault"):
            qs = [(6, ""), (1, "unsafe ")]
        self.q = s.weighted(qs)
        if self.q:
            g.on(self.q.strip())
        pool = [a for a in ATTRS if not ("track" in a and ("extern" in self.q or "async" in self.q)) and not ("inline" in a and ctx == "x")]
        pool = [a for a in pool if not (ctx == "traitimpl" and ("must_use" in a or "deprecated" in a))]
        self.b4 = "".join(s.subset(pool, 1, 9))
        self.af = "".join(x for x in s.subset(pool, 1, 9) if x not in self.b4)
        if (self.b4 + self.af).count("inline") > 1:
            self.af = ""
        self.inner = s.weighted([(8, ""), (1, "#![allow(unused)] "), (1, "#![allow(unused)] //! doc\n".replace("//! doc\n", ""))])
        # bounds of the return type
        b = []
        if self.lt != "'static" or s.chance(1, 4):
            b.append(self.lt)
        self.retbounds = b

    def fn(self, attr, ret, body, name="f"):
        """attr, ret, body: pairs."""
        gens = "<%s%s>" % (", ".join(self.gens), self.g.s.pick(["", ","])) if self.gens else ""
        where = " where %s%s" % (", ".join(self.wheres), self.g.s.pick(["", ","])) if self.wheres else ""
        ps = ", ".join(([self.recv] if self.recv else []) + self.params) + self.g.s.pick(["", ","])
        head = j(self.b4, attr, self.af, "%s%sfn %s%s(%s) -> " % (self.vis, self.q, name, gens, ps), ret, where)
        full = j(head, " { ", self.inner, self.pre, body, " }")
        decl = j("%sfn %s%s(%s) -> " % (self.q, name, gens, ps.replace("mut self", "mut self")), ret, where, ";")
        c = self.ctx
        ms = "#[derive(Clone, Copy)] pub struct MyS(pub i64); "
        if c == "free":
            return full
        if c == "macro":
            # the whole function comes out of a macro_rules macro
            return j("macro_rules! give { ($($t:tt)*) => { $($t)* } } give! { ", full, " }")
        if c == "nested":
            call = "super_f"
            return j("pub mod inn { use super::*; const _: () = { }; ", full, " } pub use inn::f;") if False else j("pub mod inn { use super::*; ", T(self._pubsuper(full.a), self._pubsuper(full.r)), " } pub(crate) use inn::f;")
        if c == "inherent":
            return j(ms, "impl MyS { pub const K: i64 = 12; ", full, " }")
        if c == "generic impl":
            return j("#[derive(Clone, Copy)] pub struct MyS<X>(pub X); impl<X: Copy + Into<i64> + 'static> MyS<X> { ", full, " }")
        if c == "lifetime impl":
            return j("#[derive(Clone, Copy)] pub struct MyS<'x>(pub &'x i64); impl<'x> MyS<'x> { ", full, " }")
        if c == "traitimpl":
            nodecl = T(self._plain(decl.a), self._plain(decl.r))
            return j(ms, "pub trait Tr { ", nodecl, " } impl Tr for MyS { ", full, " }")
        return j(ms, "pub trait Tr: Copy { const K: i64 = 12; fn get(&self) -> i64; ", full, " } impl Tr for MyS { fn get(&self) -> i64 { self.0 } }")

    @staticmethod
    def _pubsuper(t):
        return t.replace("pub(super) ", "pub(crate) ").replace("pub(in super) ", "pub(crate) ")

    def _plain(self, t):
        """A declaration without a body takes no patterns."""
        i = t.index("(") + 1
        ps = ([self.recv.replace("mut self", "self") if self.recv == "mut self" else self.recv] if self.recv else [])
        n = 0
        for p in self.params:
            n += 1
            depth, k = 0, None
            for x, ch in enumerate(p):
                if ch in "({[":
                    depth += 1
                elif ch in ")}]":
                    depth -= 1
                elif ch == ":" and depth == 0 and p[x + 1:x + 2] == " ":
                    k = x
                    break
            ps.append("_%d:%s" % (n, p[k + 1:]))
        return t.replace(", ".join(([self.recv] if self.recv else []) + self.params), ", ".join(ps), 1)

    def call(self):
        a = ", ".join(self.argx)
        e = "%sf(%s)" % (self.recvcall or "M::", a)
        if "async" in self.q:
            e = "block_on(%s)" % e
        if "unsafe" in self.q:
            e = "unsafe { %s }" % e
        imp = "use M::Tr; " if self.ctx in ("traitimpl", "traitdefault") else ""
        return imp + self.before, e


def gen(all_):
    def go(s):
        g = G(s, {"exit": 2, "ifact": 3, "mark": 1, "never": 1}, size=22 + 20 * s.draw(3))
        place = s.weighted([(6, "fn"), (3, "let"), (3, "closure"), (3, "expr"), (2, "tail")])
        prof = cprops.pick_prof(g, all_)
        at = Attr(prof, "marker")
        sig = Sig(g, place, at)
        g.on("placement " + place)
        ret, rt, fin = "wrap", None, None
        if place in ("let", "closure", "expr"):
            ret = s.pick(["i64", "unit", "opt", "res"])
            rt, fin = RETS[ret]
        spell = s.weighted([(6, "auto_enum"), (1, "auto_enums::auto_enum"), (1, "::auto_enums::auto_enum"), (1, "ae"), (1, "cfg")])
        def attr(top=True):
            sp = spell
            x = args(at)
            if s.chance(1, 8):
                x += ","
            if sp == "cfg":
                return only_a("#[cfg_attr(all(), auto_enum(%s))] " % x) if top else only_a("#[auto_enum(%s)] " % x)
            return only_a("#[%s(%s)] " % (sp, x))
        sc = Sc(attr=at, ret=ret, retattr=at if ret == "wrap" else None, vars=tuple(sig.vars), caps=tuple(sig.caps))
        if place == "tail":
            sc = sc.but(ret=None, retattr=None)
        if "async" in sig.q:
            sc = sc.but()
        autos = []
        if not sig.caps and s.chance(1, 3) and place in ("fn", "tail"):
            g.w["nostd"] = 1
            sc = sc.but(caps=())
            autos = s.subset(["Send", "Sync", "Unpin"])
        # the ordering of a bound list: traits first, then shuffled extras
        bounds = [at.imp] + s.shuffle(sig.retbounds + autos)
        if s.chance(1, 4) and len(bounds) > 1 and bounds[1] != at.imp and "+" not in at.imp:
            bounds = s.shuffle(bounds)
        impl = "impl " + " + ".join(bounds)
        outer = only_a("")
        bty = at.bty + "<%s>" % sig.lt
        before, call = sig.call()
        st, s2 = g.stmts(sc, g.few(3), 3)
        if place in ("fn", "tail"):
            body = g.multi(s2, 3, 2)
            if place == "tail":
                if spell not in ("auto_enum",):
                    spell = "auto_enum"
                outer = only_a(["", "#[auto_enum] "][g.few(2)])
                f = sig.fn(outer, T(impl, bty), j(st, " ", attr(False), body))
            else:
                f = sig.fn(attr(), T(impl, bty), j(st, " ", body))
            drive = T("%s%s(%s);" % (before, at.obs, call))
        else:
            # other spellings are not recognised inside the scope of another attribute
            has_outer = g.few(2)
            outer = only_a("#[auto_enum] " if has_outer else "")
            if has_outer or spell == "cfg":
                spell = "auto_enum"
            la = ["", "", "", LETATTRS[g.few(len(LETATTRS))]][g.few(4)]
            k = g.k()
            if place == "let":
                mid = let_form(g, s, at, attr(False), s2, la)
            elif place == "closure":
                mid = closure_form(g, s, at, attr(False), s2, la, sig)
            else:
                mid = expr_form(g, s, at, attr(False), s2)
            e = g.iexpr(s2, 1)
            f = sig.fn(outer, T(rt), j(st, " ", mid, " ", T(fin.format(e=e.a), fin.format(e=e.r))))
            drive = T("%snote(\"ret\", %s);" % (before, call))
        g.wraps = at.count
        src, ref = cprops.module(j(sig.items, f), drive, use=cprops.AUSE + "use auto_enums::auto_enum as ae;\n")
        from vk.rust import Case
        return Case(src, ref, labels=g.labels, meta={"show": f.a, "count": g.wraps})
    return go


def let_form(g, s, at, A, s2, la):
    p = at.prof
    forms = ["x", "mut x", "x @ _", "mut x @ _", "x: _", "mut x: _", "(x)", "(x, _)w", "(mut x, n)w", "Wr { w: x }w", "Wr { w: mut x, .. }w", "(x, n): (_, i64)w", "Some(x)e", "_", "fold", "_y"]
    if p in ("it", "dei", "exact", "deiexact", "read", "rw", "fnmut", "itdbg"):
        forms.append("ref mut x")
    if p in ("dbg", "dsp", "dd", "fn"):
        forms.append("ref x")
    if p in ("it", "dei", "exact", "deiexact", "itdbg", "deidbg"):
        forms.append("fold")
    else:
        forms.remove("fold")
    f = s.pick(forms)
    g.on("let " + f)
    e = g.multi(s2, 2, 2)
    if f == "fold":
        if s.chance(1, 2):
            return j(la, A, "let n: i64 = (", e, ").fold(1, |a: i64, b: i64| evi(55, a.wrapping_add(b))); note(\"n\", n);")
        return j(la, A, "let n = (", e, ").map(|b: i64| evi(55, b)).collect::<Vec<i64>>(); note(\"n\", n);")
    use = j("%s(x);" % at.obs)
    if f.endswith("w"):
        m = ".pr()" if f.startswith("(") else ".wr()"
        e = j("(", e, ")", m)
        f = f[:-1]
    elif f.endswith("e"):
        e = j("(", e, ").so()")
        els = j(g.act(s2, 1)) if g.can_act(s2) else T("panic!(\"none\")")
        return j(A, la, "let Some(x) = ", e, " else { ", els, " }; ", use)
    if f in ("_", "_y"):
        use = T("")
    return j(la if g.few(2) else "", A, la if g.few(2) else "", "let %s = " % f, e, "; ev(56); ", use)


def closure_form(g, s, at, A, s2, la, sig):
    own = s2.but(attr=at, ret="wrap", retattr=at, loops=(), vars=("q",) + s2.vars, muts=())
    if "&mut self" in sig.recv or "'a mut self" in sig.recv or "Pin<" in sig.recv or "self" in sig.caps or "Box" in sig.recv or "Rc<" in sig.recv:
        own = own.but(vars=tuple(v for v in own.vars if "self" not in v), caps=tuple(c for c in own.caps if c != "self"))
    pat, arg = s.pick([("q: i64", "%s"), ("mut q: i64", "%s"), ("(q, _): (i64, i64)", "(%s, 1)"), ("Pt { x: q, .. }: Pt", "Pt { x: %s, y: 1 }"), ("&q: &i64", "&%s"),
                       ("q @ _: i64", "%s"), ("[q, ..]: [i64; 2]", "[%s, 1]"), ("q: i64, _z: u8", "%s, 3"), ("#[allow(unused)] q: i64", "%s"), ("q: i64,", "%s"), ("(q): i64", "%s")])
    g.on("closure parameter " + pat)
    ret = ["", "", " -> _"][g.few(3)]
    mv = ["", "move "][g.few(2)]
    st, s3 = g.stmts(own, g.few(3), 2)
    body = g.multi(s3, 2, 2)
    clo = j(mv, "|%s|%s { " % (pat, ret), st, " ", body, " }")
    k = g.few(5)
    calls = "%s(c(%s)); %s(c(%s));" % (at.obs, arg % "1", at.obs, arg % "2")
    if k == 0:
        return j(la, A, "let c = ", clo, "; ", calls)
    if k == 1:
        return j("let c = ", A, clo, "; ", calls)
    if k == 2:
        return j(A, "let mut c = ", clo, "; ", calls)
    if k == 3:
        return j("let c = Some(", A, clo, ").unwrap(); ", calls)
    return j("let (c, _) = ((", A, clo, "), 1); ", calls)


def expr_form(g, s, at, A, s2):
    w = s.pick(["arg", "tuple", "array", "struct", "some", "block", "break", "call", "closure", "arm", "ifb", "nestarg", "vec", "stmtblock", "lbl", "asgn", "async"])
    g.on("expression in " + w)
    inner = s2
    if w in ("break", "lbl"):
        inner = s2.but(loops=(("", "b", None),) + tuple(x for x in s2.loops if x[0]))
    if w in ("closure", "async"):
        inner = s2.closed().but(attr=at, ret=None, caps=(), vars=("p",))
    e = j(A, g.multi(inner, 2, 2))
    o = at.obs
    if w == "arg":
        return j(o, "(", e, ");")
    if w == "nestarg":
        return j(o, "(id(id(", e, ")));")
    if w == "tuple":
        # in parentheses: rustc hands the comma after an attributed expression to the macro
        return j(o, "(((", e, "), 1).0);")
    if w == "array":
        return j("for x in [", e, "] { ", o, "(x); }")
    if w == "vec":
        return j("let mut v = Vec::new(); v.push(", e, "); for x in v { ", o, "(x); }")
    if w == "struct":
        return j(o, "(Wr { w: ", e, " }.w);")
    if w == "some":
        return j("let y = Some(", e, "); ", o, "(y.unwrap());")
    if w == "block":
        st, _ = g.stmts(inner, 1, 1)
        return j("let y = { ", st, " ", e, " }; ", o, "(y);")
    if w == "stmtblock":
        return j("{ ", o, "({ ev(57); ", e, " }); }")
    if w == "break":
        return j("let y = loop { tick(); if db(58) { continue; } break ", e, "; }; ", o, "(y);")
    if w == "lbl":
        return j("let y = 'zz: { ev(58); break 'zz (", e, "); }; ", o, "(y);")
    if w == "closure":
        return j("let y = (|| ", e, ")(); ", o, "(y);")
    if w == "async":
        return j("let y = block_on(async { ev(58); ", e, " }); ", o, "(y);")
    if w == "call":
        return j("let y = std::convert::identity(", e, "); ", o, "(y);")
    if w == "arm":
        return j("let y = match 1 { _ => ", e, " }; ", o, "(y);") if e.a else T("")
    if w == "asgn":
        return j("let y; y = ", e, "; ", o, "(y);")
    return j("let y = if true { ", e, " } else { unreachable!() }; ", o, "(y);")
