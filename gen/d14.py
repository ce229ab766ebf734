"""D14: feature subsets. The macro is built for many of them, and each build is asked what it implements."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, time
from vk import build, rust, report, choice
from vk.build import Infra
from . import enums, dprops, dprops3, d12

# as documented ("" - always)
NEEDS = {"Transpose": "transpose_methods"}
for _t in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "FusedIterator", "Extend", "Future", "Debug", "Display", "fmt::Write"):
    NEEDS[_t] = ""
for _t in ("Read", "BufRead", "Write", "Seek", "Error"):
    NEEDS[_t] = "std"
for _t in ("Deref", "DerefMut", "Index", "IndexMut", "RangeBounds"):
    NEEDS[_t] = "ops"
for _t in ("AsRef", "AsMut"):
    NEEDS[_t] = "convert"
for _t in enums.FMT_ALL[2:]:
    NEEDS[_t] = "fmt"
for _t in ("Fn", "FnMut", "FnOnce"):
    NEEDS[_t] = "fn_traits"
NEEDS["Coroutine"] = "coroutine_trait"
NEEDS["TrustedLen"] = "trusted_len"
for _fx, _ts in dprops3.X.items():
    for _t in _ts:
        NEEDS[_t] = _fx
STD = [t for t in NEEDS if NEEDS[t] == "std"]
CORE = [t for t in NEEDS if "::A" not in t and NEEDS[t] not in dprops3.X and NEEDS[t] != "std"]
FEATURES = [f for f in build.ALL_FEATURES] + ["generator_trait"]
GATED = ["coroutine_trait", "generator_trait", "fn_traits", "trusted_len"]
GATES = "#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait, stmt_expr_attributes, proc_macro_hygiene, register_tool)]\n#![allow(warnings)]\n"


def on(F):
    return [t for t in NEEDS if NEEDS[t] == "" or NEEDS[t] in F]


def spellings(t):
    return [t] + enums.ALIASES.get(t, [])


# ---------------------------------------------------------------- a crate without std
NOSTD = """#![no_std]
""" + GATES + """
use core::{fmt, ops::*, future::Future, pin::Pin, task::{Context, Poll}, convert::{AsRef, AsMut}};
pub trait Has { type Ty; }
pub struct Hold<T>(T);
impl<T> Has for Hold<T> { type Ty = T; }
pub struct Zq<const K: usize>(pub u8);
impl<const K: usize> Iterator for Zq<K> { type Item = u8; fn next(&mut self) -> Option<u8> { None } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(0)) } }
impl<const K: usize> DoubleEndedIterator for Zq<K> { fn next_back(&mut self) -> Option<u8> { None } }
impl<const K: usize> ExactSizeIterator for Zq<K> {}
impl<const K: usize> core::iter::FusedIterator for Zq<K> {}
unsafe impl<const K: usize> core::iter::TrustedLen for Zq<K> {}
impl<const K: usize> Extend<u64> for Zq<K> { fn extend<I: IntoIterator<Item = u64>>(&mut self, i: I) {} }
impl<const K: usize> Future for Zq<K> { type Output = u8; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u8> { Poll::Pending } }
impl<const K: usize> Coroutine<u64> for Zq<K> { type Yield = u8; type Return = u8; fn resume(self: Pin<&mut Self>, _: u64) -> CoroutineState<u8, u8> { CoroutineState::Yielded(1) } }
impl<const K: usize> fmt::Write for Zq<K> { fn write_str(&mut self, s: &str) -> fmt::Result { Ok(()) } }
impl<const K: usize> Deref for Zq<K> { type Target = str; fn deref(&self) -> &str { "" } }
impl<const K: usize> DerefMut for Zq<K> { fn deref_mut(&mut self) -> &mut str { Default::default() } }
impl<const K: usize> Index<usize> for Zq<K> { type Output = u8; fn index(&self, _: usize) -> &u8 { &self.0 } }
impl<const K: usize> IndexMut<usize> for Zq<K> { fn index_mut(&mut self, _: usize) -> &mut u8 { &mut self.0 } }
impl<const K: usize> AsRef<str> for Zq<K> { fn as_ref(&self) -> &str { "" } }
impl<const K: usize> AsMut<[u64]> for Zq<K> { fn as_mut(&mut self) -> &mut [u64] { &mut [] } }
impl<const K: usize> RangeBounds<u64> for Zq<K> { fn start_bound(&self) -> Bound<&u64> { Bound::Unbounded } fn end_bound(&self) -> Bound<&u64> { Bound::Unbounded } }
impl<const K: usize> Fn<(u64,)> for Zq<K> { extern "rust-call" fn call(&self, a: (u64,)) -> u64 { a.0 } }
impl<const K: usize> FnMut<(u64,)> for Zq<K> { extern "rust-call" fn call_mut(&mut self, a: (u64,)) -> u64 { a.0 } }
impl<const K: usize> FnOnce<(u64,)> for Zq<K> { type Output = u64; extern "rust-call" fn call_once(self, a: (u64,)) -> u64 { a.0 } }
macro_rules! show { ($($t:ident)*) => { $(impl<const K: usize> fmt::$t for Zq<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("z") } })* } }
show!(Debug Display Binary Octal LowerHex UpperHex LowerExp UpperExp Pointer);
"""
CORE_B = {t: re.sub(r"\bstd::", "core::", d12.CORE_B[t]) for t in d12.CORE_B if t in CORE}
QT = list(CORE_B)
NOSTD += "".join("pub mod q%d { use super::*; pub struct W<T: ?Sized>(core::marker::PhantomData<T>); pub trait No { const H: bool = false; } impl<T: ?Sized> No for W<T> {} impl<T: ?Sized + %s> W<T> { pub const H: bool = true; } }\nuse q%d::No as _;\n" % (i, CORE_B[t], i) for i, t in enumerate(QT))
TRANSPOSE = """{ match E::<Option<u8>, Option<u16>>::A(Some(1)).transpose() { Some(E::A(1)) => (), _ => panic!() } match E::<Option<u8>, Option<u16>>::B(None).transpose() { None => (), _ => panic!() }
 match E::<Result<u8, u16>, Result<u16, u32>>::A(Err(1)).transpose() { Err(E::A(1)) => (), _ => panic!() } match E::<Result<u8, u16>, Result<u16, u32>>::B(Ok(1)).transpose() { Ok(E::B(1)) => (), _ => panic!() }
 match E::<Result<u8, u16>, Result<u16, u16>>::A(Ok(1)).transpose_ok() { Ok(E::A(1)) => (), _ => panic!() } match E::<Result<u8, u16>, Result<u8, u32>>::B(Err(1)).transpose_err() { Err(E::B(1)) => (), _ => panic!() } }"""


def ask(ty, want):
    return " ".join("const _: () = assert!(q%d::W::<%s>::H == %s);" % (i, ty, "true" if t in want else "false") for i, t in enumerate(QT))


class Body:
    """A function over iterators of u32 whose values are known."""
    def __init__(self, s):
        self.s, self.n, self.labels = s, 0, set()

    def leaf(self):
        s = self.s
        self.n += 1
        a, b = s.draw(50), s.draw(9)
        k = s.draw(5)
        if k == 0:
            return "%d..%d" % (a, a + b), lambda n: sum(range(a, a + b))
        if k == 1:
            return "core::iter::once(%d)" % a, lambda n: a
        if k == 2:
            return "core::iter::repeat(%d + n).take(%d)" % (a, b), lambda n: (a + n) * b
        if k == 3:
            return "[%d, n, %d].into_iter()" % (a, b), lambda n: a + n + b
        return "(%d..%d).map(move |x| x * n)" % (a, a + b), lambda n: n * sum(range(a, a + b))

    def value(self, d, top=True):
        """An expression with several branches: (text, value for n)."""
        s = self.s
        k = s.weighted([(3, "match"), (3, "if"), (2, "loop"), (1, "block"), (1, "unsafe"), (1, "paren")])
        self.labels.add("no_std: " + k)
        if k in ("block", "unsafe", "paren") and d > 0:
            t, f = self.value(d - 1)
            c = s.draw(5)
            return {"block": "{ let n = n + %d; %s }" % (c, t), "unsafe": "unsafe { let n = n + %d; %s }" % (c, t), "paren": "(%s)" % t}[k], (f if k == "paren" else lambda n: f(n + c))
        m = s.int(2, 4)
        bs = []
        for i in range(m):
            if d > 0 and s.chance(1, 4) and i:
                t, f = self.value(d - 1)
                bs.append((t, f, True))
            else:
                bs.append(self.leaf() + (False,))
        pick = lambda n: bs[min(n % 5, m - 1)][1](n)
        if k == "if":
            t = ""
            for i, (b, _, nested) in enumerate(bs):
                b = "{ #[nested] { %s } }" % b if nested else "{ %s }" % b
                t += ("if n %% 5 == %d %s else " % (i, b)) if i < m - 1 else b
            return t, pick
        if k == "loop":
            l = s.pick(["", "'a: "])
            brk = "break" + (" 'a" if l else "")
            flat = [(b if not nested else self.leaf_for(bs, i)) for i, (b, _, nested) in enumerate(bs)]
            return "%sloop { %s }" % (l, " ".join(("if n %% 5 == %d { %s %s; }" % (i, brk, b)) if i < m - 1 else "%s %s;" % (brk, b) for i, b in enumerate(flat))), lambda n: bs[min(n % 5, m - 1)][1](n)
        return "match n %% 5 { %s }" % " ".join("%s%s => %s," % ("#[nested] " if nested else "", i if i < m - 1 else "_", b) for i, (b, _, nested) in enumerate(bs)), pick

    def leaf_for(self, bs, i):
        t, f = self.leaf()
        bs[i] = (t, f, False)
        return t

    def fn(self, name):
        s = self.s
        k = s.weighted([(4, "fn"), (2, "let"), (1, "expr"), (2, "try"), (1, "closure"), (1, "marker"), (1, "return"), (1, "method")])
        self.labels.add("no_std: as " + k)
        lst = s.pick(["Iterator", "Iterator,"])
        A = "#[auto_enums::auto_enum(%s)]" % lst
        if k == "try":
            a, b = s.draw(9), s.draw(9)
            t = "%s fn %sx(n: u32) -> Result<u32, impl core::fmt::Display> { if n == 1 { Err(%du8)?; } let x = if n == 2 { Err(%du16)? } else { n }; Ok(x + %d) }\n" % (A.replace(lst, "Display"), name, a, b, a)
            t += "pub fn %s(n: u32) -> u32 { match %sx(n) { Ok(v) => v, Err(e) => { struct S(u32); impl core::fmt::Write for S { fn write_str(&mut self, s: &str) -> core::fmt::Result { self.0 += s.bytes().map(|b| b as u32).sum::<u32>(); Ok(()) } } let mut s = S(0); core::fmt::Write::write_fmt(&mut s, format_args!(\"{e}\")).unwrap(); s.0 } } }\n" % (name, name)
            return t, lambda n: 48 + a if n == 1 else 48 + b if n == 2 else n + a
        if k == "marker":
            (x, f), (y, g) = self.leaf(), self.leaf()
            return "pub fn %s(n: u32) -> u32 { #[auto_enums::auto_enum(Iterator)] { let f = |k: bool| if k { marker!(%s) } else { marker!(%s) }; f(n > 2).sum::<u32>() } }\n" % (name, x, y), lambda n: f(n) if n > 2 else g(n)
        t, f = self.value(2)
        if k == "let":
            return "pub fn %s(n: u32) -> u32 { %s let v = %s; v.sum() }\n" % (name, A, t), f
        if k == "expr":
            return "pub fn %s(n: u32) -> u32 { let v = %s { let n = n; %s }; v.sum() }\n" % (name, A, t), f
        if k == "closure":
            return "pub fn %s(n: u32) -> u32 { %s let c = |n: u32| { if n == 99 { return 0..0; } %s }; c(n).sum() }\n" % (name, A, t), f
        if k == "return":
            x, g = self.leaf()
            return "%s fn %sx(n: u32) -> impl Iterator<Item = u32> { if n == 3 { return %s; } %s }\npub fn %s(n: u32) -> u32 { %sx(n).sum() }\n" % (A, name, x, t, name, name), lambda n: g(n) if n == 3 else f(n)
        if k == "method":
            return "pub struct %sS(u32);\nimpl %sS { %s fn m(&self) -> impl Iterator<Item = u32> { let n = self.0; %s } }\npub fn %s(n: u32) -> u32 { %sS(n).m().sum() }\n" % (name, name, A, t, name, name), f
        return "%s fn %sx(n: u32) -> impl Iterator<Item = u32> { %s }\npub fn %s(n: u32) -> u32 { %sx(n).sum() }\n" % (A, name, t, name, name), f


def nostd_crate(s, F, labels):
    """(source of the no_std library, source of the program that runs it, cases)."""
    ok = [t for t in on(F) if t in CORE]
    src, cases = [NOSTD], []

    def add(kind, text, show):
        src.append("/*case %d*/ %s\n" % (len(cases), text.replace("\n", " ")))
        cases.append((kind, show))
    for t in ok:
        for sp in spellings(t):
            if t == "Transpose":
                add("trait", "pub mod m%d { use super::*; #[auto_enums::enum_derive(%s)] pub enum E<A, B> { A(A), B(B) } pub fn run() %s }" % (len(cases), sp, TRANSPOSE), sp)
            else:
                add("trait", "pub mod m%d { use super::*; #[auto_enums::enum_derive(%s)] pub enum E<A, B> { A(A), B(B) } type T = E<Zq<1>, Zq<2>>; %s }" % (len(cases), sp, ask("T", set(enums.closure([t])))), sp)
    pool = [t for t in ok if t != "Transpose"]
    for _ in range(6):
        ts = s.shuffle(pool)[:s.int(1, 6)]
        sh = enums.shape(s, ts, "#[auto_enums::enum_derive(%s)]" % enums.trait_list(s, ts), value=lambda k: ("", "Zq::<%d>(0)" % k, "Zq<%d>" % k), kinds=())
        decl = re.sub(r"///[^\n]*\n", "", sh.decl)
        add("list", "pub mod m%d { use super::*; %s type T = %s; %s }" % (len(cases), decl, sh.concrete, ask("T", set(enums.closure(ts)))), decl)
    main = ["fn main() { "]
    for _ in range(6):
        b = Body(s)
        t, f = b.fn("f%d" % len(cases))
        labels |= b.labels
        for n in range(7):
            main.append("c(%d, %d, lib::f%d(%d), %du32);" % (len(cases), n, len(cases), n, f(n) & 0xffffffff))
        add("auto_enum", t, t)
    if "type_analysis" in F:
        add("analysis", "#[auto_enums::auto_enum] fn ta(n: u32) -> impl Iterator<Item = u32> { match n { 0 => 1..3, _ => core::iter::once(n) } } pub fn g(n: u32) -> u32 { ta(n).sum() }", "type_analysis")
        main.append("c(%d, 0, lib::g(0), 3); c(%d, 1, lib::g(9), 9);" % (len(cases) - 1, len(cases) - 1))
    if "transpose_methods" in F:
        main += ["lib::m%d::run();" % i for i, (k, sh) in enumerate(cases) if sh == "Transpose"]
    main.append("}\nfn c(id: usize, n: u32, got: u32, want: u32) { if got != want { println!(\"{id} for n = {n} the sum is {got} instead of {want}\"); } }\n")
    return "".join(src), " ".join(main), cases


# ---------------------------------------------------------------- builds
class Repo:
    def __init__(self, d):
        self.d = d
        self.mac = build.cargo_build("default", build.DEFAULT_FEATURES)
        p = subprocess.run(["cargo", "metadata", "--offline", "--no-deps", "--format-version=1"], cwd=build.REPO, env=build.env(), capture_output=True, text=True)
        if p.returncode:
            raise Infra("cargo metadata: " + p.stderr[-500:])
        pk = [k for k in json.loads(p.stdout)["packages"] if k["name"] == "auto_enums"][0]
        self.features, self.edition = pk["features"], pk["edition"]
        self.src = [t["src_path"] for t in pk["targets"] if "proc-macro" in t["kind"]][0]

    def close(self, F):
        out = set()
        todo = list(F)
        while todo:
            f = todo.pop()
            if f not in out:
                out.add(f)
                todo += self.features.get(f, [])
        return out

    def build(self, d, F):
        so = os.path.join(d, "libauto_enums.so")
        args = ["--edition", self.edition, "--crate-type", "proc-macro", "--crate-name", "auto_enums", "--cap-lints", "allow", "-C", "debuginfo=0", "-o", so, "-L", "dependency=" + self.mac.deps, "--extern", "proc_macro"]
        for k in ("syn", "quote", "proc_macro2", "derive_utils"):
            args += ["--extern", "%s=%s" % (k, self.mac.other[k])]
        for f in sorted(self.close(F)):
            args += ["--cfg", 'feature="%s"' % f]
        rc, diags, raw = build.run_rustc(args + [self.src], d)
        return so, rc, rust.first_errors(diags, raw)


def names_off(F):
    o = set(on(F))
    return [sp for t in NEEDS if t not in o for sp in spellings(t)]


def check_off(repo, d, so, F, s, names):
    """Unknown names get what #[derive] gives them. Returns [(name, problem)]."""
    lines = []
    lists = [(n, n) for n in names]
    lists += [("%s, %s" % (s.pick(["Debug", "Iterator", "Future"]), n), n) for n in names if s.chance(1, 3)]
    for k, (l, n) in enumerate(lists):
        lines.append("pub mod m%d { #[auto_enums::enum_derive(%s)] pub enum E<A, B> { A(A), B(B) } }" % (k, l))
        lines.append("pub mod r%d { #[derive(%s)] pub enum E<A, B> { A(A), B(B) } }" % (k, n))
    if "type_analysis" not in F:
        lines.append("fn ta(n: u32) -> impl Iterator<Item = u32> { match n { 0 => 1..3, _ => core::iter::once(n) } }")
    errs, trouble = rust.line_errors(d, "off", GATES, lines, ["--extern", "auto_enums=" + so])
    bad = []
    if trouble:
        return [(lists[0][0], trouble)]
    for k, (l, n) in enumerate(lists):
        e, r = sorted(set(map(str, errs.get(2 * k, [])))), sorted(set(map(str, errs.get(2 * k + 1, []))))
        if not r:
            raise Infra("#[derive(%s)] is not an error" % n)
        if e != r:
            bad.append((l, "#[enum_derive(%s)] gives %s, but the name, handed to #[derive], gives %s" % (l, e[:3] or "no error", r[:3])))
    # what the names mean may be the business of a derive macro of the user's
    return bad


def check_user(repo, d, so, spy, F):
    have = [n for n in ("Read", "Error") if NEEDS[n] not in F]
    if not have:
        return []
    lines = ["pub mod m%d { use spy::%s; #[auto_enums::enum_derive(Debug, %s)] pub enum E<A, B> { A(A), B(B) } const F: fn() -> &'static str = derive_input; }" % (i, n, n) for i, n in enumerate(have)]
    errs, trouble = rust.line_errors(d, "user", GATES, lines, ["--extern", "auto_enums=" + so, "--extern", "spy=" + spy])
    if trouble:
        return [(have[0], trouble)]
    return [(have[k], "a derive macro of this name is not given the enum: %s" % (errs[k][:2],)) for k in sorted(errs) if k >= 0]


def check_nostd(repo, d, so, F, s, labels):
    lib, main, cases = nostd_crate(s, F, labels)
    f = os.path.join(d, "nostd.rs")
    open(f, "w").write(lib)
    head = lib[:lib.index("/*case 0*/")].count("\n")
    fl = ["--extern", "auto_enums=" + so]
    rc, diags, raw = build.run_rustc(["--crate-type", "rlib", "--crate-name", "lib", "-C", "debuginfo=0", "-o", os.path.join(d, "liblib.rlib")] + fl + [f], d)
    bad = {}
    if rc:
        for g in diags:
            if not g["level"].startswith("error") or not g["spans"]:
                continue
            for sp in g["spans"]:
                if sp["is_primary"]:
                    while sp.get("expansion") and not sp["file_name"].endswith("nostd.rs"):
                        sp = sp["expansion"]["span"]
                    k = sp["line_start"] - head - 1
                    if 0 <= k < len(cases):
                        bad.setdefault(k, g["message"])
        if not bad:
            return [("", "the no_std crate does not compile: " + rust.first_errors(diags, raw))], len(cases)
        return [(cases[k][1], "in a no_std crate: " + m) for k, m in sorted(bad.items())], len(cases)
    m = os.path.join(d, "main.rs")
    open(m, "w").write(main)
    rc, diags, raw = build.run_rustc(["--crate-name", "main", "-L", d, "-C", "debuginfo=0", "-o", os.path.join(d, "main"), "--extern", "lib=" + os.path.join(d, "liblib.rlib")] + fl + [m], d)
    if rc:
        return [("", "the program using the no_std crate does not compile: " + rust.first_errors(diags, raw))], len(cases)
    try:
        p = subprocess.run([os.path.join(d, "main")], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return [("", "the program using the no_std crate does not end")], len(cases)
    if p.returncode:
        return [("", "the program using the no_std crate ended with %d: %s" % (p.returncode, p.stderr[-500:]))], len(cases)
    out = {}
    for l in p.stdout.splitlines():
        k, t = l.split(" ", 1)
        out.setdefault(int(k), t)
    return [(cases[k][1], t) for k, t in sorted(out.items())], len(cases)


def one(repo, d, F, seed, spy, kinds=("off", "user", "nostd"), names=None):
    """Everything but the driven cases, for one feature set. Returns (problems, so, counts, labels)."""
    os.makedirs(d)
    s = choice.Src(seed=seed)
    labels = set()
    C = repo.close(F)
    so, rc, err = repo.build(d, F)
    gated = sorted(set(GATED) & C)
    if gated and "unstable" not in C:
        if rc == 0:
            return [("build", "", "the features %s build without `unstable`" % gated)], None, 1, {"rejected without unstable"}
        if "unstable" not in err:
            return [("build", "", "without `unstable` the build fails with: " + err)], None, 1, labels
        return [], None, 1, {"rejected without unstable"}
    if rc:
        return [("build", "", "this feature set does not build:\n" + err)], None, 1, labels
    bad, n = [], 0
    off = names_off(C)
    if "off" in kinds and off:
        bad += [("off",) + x for x in check_off(repo, d, so, C, s, names or off)]
        n += len(off)
    if "user" in kinds:
        bad += [("user",) + x for x in check_user(repo, d, so, spy, C)]
    if "nostd" in kinds:
        b, k = check_nostd(repo, d, so, C, s, labels)
        bad += [("nostd",) + x for x in b]
        n += k
    return bad, so, n, labels


def feature_sets(s, n):
    base = [[], build.ALL_FEATURES, ["std"]]
    single = [[f] + (["unstable"] if f in GATED else []) for f in FEATURES if f not in ("std", "unstable")]
    minus = [[g for g in build.ALL_FEATURES if g != f and (f != "unstable" or g not in GATED)] for f in build.ALL_FEATURES]
    out = base + s.shuffle(single)[:max(3, n // 8)] + s.shuffle(minus)[:max(3, n // 8)]
    # every ordered pair (on, off) is to occur, among the features of the crate's own traits more than once
    own = {"std", "ops", "convert", "fmt", "transpose_methods", "type_analysis", "unstable"} | set(GATED)
    seen = {}

    def pairs(F):
        return [(f, g) for f in F for g in FEATURES if g not in F]

    def gain(F):
        return sum((4 if f in own and g in own else 1) / (1 + 3 * seen.get((f, g), 0)) for f, g in pairs(F))
    for F in out:
        for q in pairs(F):
            seen[q] = seen.get(q, 0) + 1
    while len(out) < n:
        best = []
        for _ in range(12):
            p = s.int(2, 4)
            F = [f for f in FEATURES if s.chance(p, 6)]
            if s.chance(1, 4):
                F = [f for f in F if f not in GATED and f != "unstable"]
            if set(F) & set(GATED) and not s.chance(1, 6) and "unstable" not in F:
                F.append("unstable")
            best.append(F)
        F = max(best, key=gain)
        for q in pairs(F):
            seen[q] = seen.get(q, 0) + 1
        out.append(F)
    return out


def check(rep):
    rep.rule.append("The macro is built for the empty, the default, the full, single, all-but-one and random feature sets. For each: every name that is off gives, under enum_derive, exactly rustc's errors for #[derive] on a plain copy (or goes to the user's derive macro); every core name that is on, random lists of them "
                    "and random auto_enum functions are compiled in a #![no_std] crate, asked which traits they have and run; random lists of what is on are driven as for D01-D12. Non-trivial: a (feature set, off name or driven case) pair, or a no_std crate that ran.")
    rep.assumptions.append("the macro is compiled by rustc with the features cargo's metadata resolves to, against the dependencies cargo built")
    d = build.scratch("D14b")
    try:
        repo = Repo(d)
        spy, _ = build.spy()
        rp = rep.replay
        n = 1 if rp else max(8, int((40 if rep.tier == "quick" else 400) * rep.scale))
        s = choice.Src(seed="D14/%d" % rep.seed)
        sets = [rp["features"]] if rp else feature_sets(s, n)
        seeds = ["D14/%d/%d" % (rep.seed, i) for i in range(len(sets))]
        if rp:
            seeds = [rp.get("seed", "x")]
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda i: one(repo, os.path.join(d, "f%d" % i), sets[i], seeds[i], spy), range(len(sets))))
        shown = set()
        for i, (bad, so, k, lb) in enumerate(res):
            rep.evaluations += k
            rep.label(lb)
            rep.label(["feature sets", "std " + ("on" if "std" in sets[i] else "off"), "features:%s" % (len(sets[i]) // 5 * 5)])
            rep.label(["names that are off"], len(names_off(repo.close(sets[i]))))
            if not bad:
                rep.nontrivial |= {report.digest("%s %s" % (sorted(sets[i]), x)) for x in [""] + (names_off(repo.close(sets[i])) if so else [])}
                if i in (3, 20):
                    rep.sample({"features": sets[i], "off": names_off(repo.close(sets[i]))[:12], "cases": k})
            for kind, name, why in bad:
                if (kind, name if kind != "nostd" else why[:60]) in shown or len(shown) > 4:
                    continue
                shown.add((kind, name if kind != "nostd" else why[:60]))
                F, t0 = list(sets[i]), time.time()
                # features that do not matter for it are left out
                for j, f in enumerate(list(F)):
                    if time.time() - t0 > 25:
                        break
                    G = [x for x in F if x != f]
                    b = one(repo, os.path.join(d, "s%d-%d-%d" % (i, len(shown), j)), G, seeds[i], spy, (kind,), [name] if kind == "off" and name in names_off(repo.close(G)) else None)[0]
                    if any(x[0] == kind and (x[1] == name or kind in ("build", "nostd")) and (kind == "build" or x[2].split(":")[0] == why.split(":")[0]) for x in b):
                        F = G
                rep.violation("%s:%s:%s:%s" % (kind, ",".join(F), name, report.digest(why)), "with features %s: %s\n%s" % (F, why, name), {"kind": kind, "features": F, "seed": seeds[i], "name": name})
        # driven as for the other properties
        live = [i for i in range(len(sets)) if res[i][1] and not res[i][0]]
        order = live if rp else sorted(live, key=lambda i: (i % 3, i))[:16 if rep.tier == "quick" else 120]
        gs = {}
        for i in order:
            gs.setdefault(list(d12.GROUPS)[i % 4] if not rp else rp.get("group", "g1"), []).append(i)
        for g, ids in gs.items():
            ext = [dprops3.EXTERNS[fx][0] for fx in d12.GROUPS[g]]
            m, dd, flags = dprops.setup(rep, fx=d12.GROUPS[g], ext=[k for _, k in ext], extern=ext)
            try:
                def drive(i):
                    C = repo.close(sets[i])
                    only = set(on(C))
                    if "std" not in C:
                        only -= {"tokio01::AsyncRead", "tokio01::AsyncWrite"}
                    fl = ["auto_enums=" + res[i][1] if x.startswith("auto_enums=") else x for x in flags]
                    bd = os.path.join(d, "drive%d" % i)
                    os.makedirs(bd, exist_ok=True)
                    b = rust.Batch(bd, fl + ["--extern", "spy=" + spy], dprops.PRELUDE.replace("feature(", "feature(proc_macro_hygiene, stmt_expr_attributes, custom_inner_attributes, ", 1))
                    name = "drive:" + ",".join(sets[i])
                    if rp and rp.get("generator") != name:
                        return
                    report.differential(rep, b, d12.make(g, only), 6 if rep.tier == "quick" else 20, rep.seed, gen_name=name, size=20, tolerate_invalid=0.35, replay_extra={"features": sets[i], "group": g},
                                        nontrivial=lambda c, r: not c.labels & {"traits:1"})
                with cf.ThreadPoolExecutor(4) as ex:
                    list(ex.map(drive, ids))
            finally:
                shutil.rmtree(dd, ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHECKS = {"D14": check}
