// Runtime of the generated auto_enum programs: decision scripts, logged leaves, observers.
#![feature(fn_traits, unboxed_closures)]
#![allow(clippy::all, dead_code, deprecated, unused_imports, unexpected_cfgs)]
include!("cx.rs");
use std::collections::{BTreeSet, HashMap};
use std::fmt::{self, Display};
use std::future::Future;
use std::io::{self, Read};
use std::pin::{pin, Pin};
use std::task::{Context, Poll, Waker};

// ---------------------------------------------------------------- decisions
#[derive(Default)]
struct Script {
    mode: u64, // 0 all zero, 1 all max, else pseudo-random
    force: Option<(u64, u64)>,
    visits: HashMap<u64, u64>,
    seen: HashMap<u64, u64>,
    covered: BTreeSet<(u64, u64)>,
    fuel: u64,
}
thread_local!(static S: RefCell<Script> = RefCell::new(Script::default()));
fn start(mode: u64, force: Option<(u64, u64)>) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.mode = mode;
        s.force = force;
        s.visits.clear();
        s.fuel = 600;
    })
}
fn burn() {
    let out = S.with(|s| {
        let mut s = s.borrow_mut();
        s.fuel = s.fuel.saturating_sub(1);
        s.fuel == 0
    });
    if out {
        S.with(|s| s.borrow_mut().fuel = 10_000);
        panic!("out of fuel");
    }
}
pub fn tick() {
    burn()
}
/// Decision number k among n alternatives.
pub fn d(k: u64, n: u64) -> u64 {
    burn();
    let v = S.with(|s| {
        let mut s = s.borrow_mut();
        let c = s.visits.entry(k).or_insert(0);
        let i = *c;
        *c += 1;
        let v = match s.force {
            Some((fk, fv)) if fk == k && i < 2 => fv.min(n - 1),
            _ => match s.mode {
                0 => if i > 3 { (i % n + n - 1) % n } else { 0 },
                1 => if i > 3 { i % n } else { n - 1 },
                m => R::new(m.wrapping_mul(31).wrapping_add(k).wrapping_mul(1009) + i).n(n),
            },
        };
        s.seen.insert(k, n);
        s.covered.insert((k, v));
        v
    });
    log(format!("d{k}={v}"));
    v
}
pub fn db(k: u64) -> bool {
    d(k, 2) == 1
}
pub fn ev(k: u64) {
    burn();
    log(format!("ev{k}"))
}
pub fn evi(k: u64, v: i64) -> i64 {
    burn();
    log(format!("ev{k}={v}"));
    v
}
pub fn opt(k: u64) -> Option<i64> {
    if db(k) { Some(k as i64 % 10) } else { None }
}
/// Ok or Err by decision.
pub fn r<const K: u64>(k: u64) -> Result<i64, L<K>> {
    if db(k) { Err(l::<K>(k as i64 % 10)) } else { Ok(k as i64 % 7) }
}
pub fn rl<const K: u64, const J: u64>(k: u64) -> Result<L<J>, L<K>> {
    if db(k) { Err(l::<K>(k as i64 % 10)) } else { Ok(l::<J>(k as i64 % 7)) }
}
#[derive(Debug)]
pub struct Pd(pub String);
pub struct Wr<T> {
    pub w: T,
}
pub struct Pt {
    pub x: i64,
    pub y: i64,
}
pub fn add(a: i64, b: i64) -> i64 {
    a.wrapping_mul(3).wrapping_add(b) % 1000
}
pub fn id<T>(t: T) -> T {
    log("id".into());
    t
}
pub fn diverge(k: u64) -> ! {
    panic!("diverge{k}")
}
pub trait Idm: Sized {
    /// keeps value and type
    fn idm(self) -> Self {
        log("idm".into());
        self
    }
    fn wr(self) -> Wr<Self> {
        log("wr".into());
        Wr { w: self }
    }
    fn pr(self) -> (Self, i64) {
        log("pr".into());
        (self, 7)
    }
    fn so(self) -> Option<Self> {
        log("so".into());
        Some(self)
    }
    fn ida(self, x: i64) -> Self {
        log(format!("ida{x}"));
        self
    }
}
/// Macros named like markers, used through their path.
pub mod pm {
    pub use crate::evm as marker;
    pub use crate::evm as mm;
    pub use crate::evm as r#box;
    pub use crate::evm as variant;
    pub use crate::evm as assert_one;
    pub use crate::evm as outer;
    pub use crate::evm as ma;
    pub use crate::evm as mb;
    pub use crate::evm as mc;
    pub use crate::evm as md;
    pub use crate::evm as me;
}
impl<T> Idm for T {}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}
#[macro_export]
macro_rules! evm {
    ($k:expr) => { $crate::ev($k) };
    ($k:expr, $($t:tt)*) => {{ $crate::ev($k); $($t)* }};
}
/// never expanded into anything: a macro whose arguments are not expressions
#[macro_export]
macro_rules! toks {
    ($($t:tt)*) => { $crate::ev(stringify!($($t)*).len() as u64) };
}

impl Cx {
    /// Runs both closures under all-zero, all-max and pseudo-random decision scripts, then forces every decision
    /// that was seen but not taken.
    pub fn explore(&mut self, what: &str, random: u64, got: impl Fn(), want: impl Fn()) {
        S.with(|s| *s.borrow_mut() = Script::default());
        let mut traces = BTreeSet::new();
        let mut tried = BTreeSet::new();
        let mut n = 0;
        let base = hash(what) ^ self.seed;
        loop {
            let (mode, force) = if n < 2 + random {
                (if n < 2 { n } else { 2 + base.wrapping_add(n) % 1_000_000_007 }, None)
            } else {
                let next = S.with(|s| {
                    let s = s.borrow();
                    let mut keys: Vec<_> = s.seen.iter().map(|(a, b)| (*a, *b)).collect();
                    keys.sort();
                    let mut out = None;
                    'f: for (k, m) in keys {
                        for v in 0..m.min(8) {
                            if !s.covered.contains(&(k, v)) {
                                for t in 0..4 {
                                    if !tried.contains(&(k, v, t)) {
                                        out = Some((k, v, t));
                                        break 'f;
                                    }
                                }
                            }
                        }
                    }
                    out
                });
                match next {
                    Some((k, v, t)) if n < 2 + random + 80 => {
                        tried.insert((k, v, t));
                        (2 + base.wrapping_add(t * 7919 + k) % 1_000_000_007, Some((k, v)))
                    }
                    _ => break,
                }
            };
            n += 1;
            start(mode, force);
            let w = record(&want);
            start(mode, force);
            let g = record(&got);
            self.runs += 1;
            self.stat("n_events", w.len() as u64);
            if w.last().is_some_and(|l| l.starts_with("PANIC")) {
                self.stat("n_panicking_runs", 1);
            }
            if let Some(l) = w.iter().rev().find(|l| l.starts_with("made ")) {
                traces.insert(l.clone());
            }
            if let Some(x) = diff(&g, &w) {
                self.fail(format!("{what} (script {mode} {force:?}): {x}"));
                return;
            }
        }
        self.stat("n_last_leaves", traces.len() as u64);
    }
}

// ---------------------------------------------------------------- leaves
/// A value of one of many types which implements everything the programs need.
pub struct L<const K: u64> {
    pub n: i64,
    i: i64,
}
pub fn l<const K: u64>(n: i64) -> L<K> {
    log(format!("made L{K}({n})"));
    L { n, i: 0 }
}
impl<const K: u64> Drop for L<K> {
    fn drop(&mut self) {
        log(format!("drop L{K}({})", self.n));
    }
}
impl<const K: u64> Clone for L<K> {
    fn clone(&self) -> Self {
        log(format!("clone L{K}"));
        L { n: self.n, i: self.i }
    }
}
impl<const K: u64> Iterator for L<K> {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        self.i += 1;
        log(format!("L{K}.next {}", self.i));
        if self.i <= 1 + (K as i64 % 3) { Some(self.n * 10 + self.i) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (1 + K as i64 % 3 - self.i).max(0) as usize;
        (n, Some(n))
    }
}
impl<const K: u64> DoubleEndedIterator for L<K> {
    fn next_back(&mut self) -> Option<i64> {
        self.i += 1;
        log(format!("L{K}.next_back {}", self.i));
        if self.i <= 1 + (K as i64 % 3) { Some(-self.n * 10 - self.i) } else { None }
    }
}
impl<const K: u64> ExactSizeIterator for L<K> {}
impl<const K: u64> std::iter::FusedIterator for L<K> {}
impl<const K: u64> Debug for L<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(&format!("dbg{K}:{}", self.n))
    }
}
impl<const K: u64> Display for L<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad(&format!("dsp{K}:{}", self.n))
    }
}
impl<const K: u64> std::error::Error for L<K> {}
impl<const K: u64> Future for L<K> {
    type Output = i64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i64> {
        self.i += 1;
        log(format!("L{K}.poll {}", self.i));
        if self.i > (K as i64 % 3) { Poll::Ready(self.n * 100 + K as i64) } else { Poll::Pending }
    }
}
impl<const K: u64> Read for L<K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.i += 1;
        log(format!("L{K}.read {}", buf.len()));
        if self.i > 2 || buf.is_empty() {
            return Ok(0);
        }
        buf[0] = self.n as u8;
        Ok(1)
    }
}
impl<const K: u64> io::Write for L<K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.i += 1;
        log(format!("L{K}.write {:?}", buf));
        Ok(buf.len().min(1 + K as usize % 3))
    }
    fn flush(&mut self) -> io::Result<()> {
        log(format!("L{K}.flush"));
        Ok(())
    }
}
impl<const K: u64> FnOnce<(i64,)> for L<K> {
    type Output = i64;
    extern "rust-call" fn call_once(self, a: (i64,)) -> i64 {
        self.call(a)
    }
}
impl<const K: u64> FnMut<(i64,)> for L<K> {
    extern "rust-call" fn call_mut(&mut self, a: (i64,)) -> i64 {
        self.call(a)
    }
}
impl<const K: u64> Fn<(i64,)> for L<K> {
    extern "rust-call" fn call(&self, a: (i64,)) -> i64 {
        log(format!("L{K}.call {}", a.0));
        a.0 * 3 + self.n
    }
}

/// A leaf that holds a captured value as well.
pub struct H<const K: u64, C> {
    pub l: L<K>,
    pub c: C,
}
pub fn h<const K: u64, C>(n: i64, c: C) -> H<K, C> {
    H { l: l::<K>(n), c }
}
impl<const K: u64, C> Iterator for H<K, C> {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        self.l.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.l.size_hint()
    }
}
impl<const K: u64, C> DoubleEndedIterator for H<K, C> {
    fn next_back(&mut self) -> Option<i64> {
        self.l.next_back()
    }
}
impl<const K: u64, C> ExactSizeIterator for H<K, C> {}
impl<const K: u64, C> Debug for H<K, C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.l, f)
    }
}
impl<const K: u64, C> Display for H<K, C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.l, f)
    }
}
impl<const K: u64, C> std::error::Error for H<K, C> {}
impl<const K: u64, C> Future for H<K, C> {
    type Output = i64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<i64> {
        // SAFETY: c is never pinned
        Pin::new(unsafe { &mut self.get_unchecked_mut().l }).poll(cx)
    }
}
impl<const K: u64, C> Read for H<K, C> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.l.read(buf)
    }
}
impl<const K: u64, C> io::Write for H<K, C> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.l.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.l.flush()
    }
}
impl<const K: u64, C> FnOnce<(i64,)> for H<K, C> {
    type Output = i64;
    extern "rust-call" fn call_once(self, a: (i64,)) -> i64 {
        self.l.call(a)
    }
}
impl<const K: u64, C> FnMut<(i64,)> for H<K, C> {
    extern "rust-call" fn call_mut(&mut self, a: (i64,)) -> i64 {
        self.l.call(a)
    }
}
impl<const K: u64, C> Fn<(i64,)> for H<K, C> {
    extern "rust-call" fn call(&self, a: (i64,)) -> i64 {
        self.l.call(a)
    }
}

// ---------------------------------------------------------------- trait objects for combined profiles
macro_rules! comb { ($($n:ident: $($b:path),*;)*) => { $(
    pub trait $n: $($b +)* {}
    impl<T: $($b +)*> $n for T {}
)* } }
comb! {
    ItDebug: Iterator<Item = i64>, Debug;
    Dei: DoubleEndedIterator<Item = i64>;
    DeiExact: DoubleEndedIterator<Item = i64>, ExactSizeIterator;
    DebugDisplay: Debug, Display;
    ItFut: Iterator<Item = i64>, Future<Output = i64>;
    ReadDebug: Read, Debug;
    ItExact: ExactSizeIterator<Item = i64>;
    ItFused: std::iter::FusedIterator<Item = i64>;
    ItDeiDebug: DoubleEndedIterator<Item = i64>, Debug;
    RWrite: Read, io::Write;
}

// ---------------------------------------------------------------- observers
pub fn o_it(mut i: impl Iterator<Item = i64>) {
    note("hint", i.size_hint());
    note("next", i.next());
    let v: Vec<i64> = i.by_ref().take(3).collect();
    note("rest", v);
    note("fold", i.take(5).fold(0i64, |a, x| a.wrapping_mul(3).wrapping_add(x)));
}
pub fn o_dei(mut i: impl DoubleEndedIterator<Item = i64>) {
    note("hint", i.size_hint());
    note("back", i.next_back());
    note("next", i.next());
    let v: Vec<i64> = i.by_ref().rev().take(2).collect();
    note("rev", v);
    o_it(i)
}
pub fn o_exact(i: impl ExactSizeIterator<Item = i64>) {
    note("len", i.len());
    o_it(i)
}
pub fn o_deiexact(i: impl DoubleEndedIterator<Item = i64> + ExactSizeIterator) {
    note("len", i.len());
    o_dei(i)
}
pub fn o_dbg(x: impl Debug) {
    log(format!("{x:?} {x:>12?}"))
}
pub fn o_dsp(x: impl Display) {
    log(format!("{x} {x:_^12}"))
}
pub fn o_dd(x: impl Debug + Display) {
    log(format!("{x:?} {x}"))
}
pub fn o_err(x: impl std::error::Error) {
    log(format!("{x:?} {x}"))
}
/// dyn Error that is an Error itself
pub struct Be<'a>(pub Box<dyn std::error::Error + 'a>);
impl Debug for Be<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(&self.0, f)
    }
}
impl Display for Be<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl std::error::Error for Be<'_> {}
macro_rules! bxr { ($($b:ident $f:ident [$($t:tt)*];)*) => { $(
    pub type $b<'a> = Box<dyn $($t)* + 'a>;
    pub fn $f<'a, T: $($t)* + 'a>(t: T) -> $b<'a> {
        Box::new(t)
    }
)* } }
bxr! {
    Bit bit [Iterator<Item = i64>];
    Bdei bdei [DoubleEndedIterator<Item = i64>];
    Bexact bexact [ExactSizeIterator<Item = i64>];
    Bdeiexact bdeiexact [DeiExact];
    Bfused bfused [ItFused];
    Bdbg bdbg [Debug];
    Bdsp bdsp [Display];
    Bdd bdd [DebugDisplay];
    Bread bread [Read];
    Bfn bfn [Fn(i64) -> i64];
    Bfnmut bfnmut [FnMut(i64) -> i64];
    Bfnonce bfnonce [FnOnce(i64) -> i64];
    Bitdbg bitdbg [ItDebug];
    Bdeidbg bdeidbg [ItDeiDebug];
    Breaddbg breaddbg [ReadDebug];
    Brw brw [RWrite];
}
pub type Bfut<'a> = Pin<Box<dyn Future<Output = i64> + 'a>>;
pub fn bfut<'a, T: Future<Output = i64> + 'a>(t: T) -> Bfut<'a> {
    Box::pin(t)
}
pub type Berr<'a> = Be<'a>;
pub fn berr<'a, T: std::error::Error + 'a>(t: T) -> Berr<'a> {
    Be(Box::new(t))
}
pub fn o_fut(x: impl Future<Output = i64>) {
    let v = block_on(x);
    note("out", v)
}
pub fn o_fn(f: impl Fn(i64) -> i64) {
    note("call", f(3));
    note("call", f(5));
}
pub fn o_fnmut(mut f: impl FnMut(i64) -> i64) {
    note("call", f(3));
    note("call", f(5));
}
pub fn o_fnonce(f: impl FnOnce(i64) -> i64) {
    note("call", f(3));
}
pub fn o_read(mut r: impl Read) {
    let mut b = [0u8; 3];
    note("read", r.read(&mut b).ok());
    let mut v = vec![];
    note("end", r.read_to_end(&mut v).ok());
    note("v", (b, v));
}
pub fn o_itdbg(x: impl Iterator<Item = i64> + Debug) {
    o_dbg(&x);
    o_it(x)
}
pub fn o_deidbg(x: impl DoubleEndedIterator<Item = i64> + Debug) {
    o_dbg(&x);
    o_dei(x)
}
pub fn o_readdbg(x: impl Read + Debug) {
    o_dbg(&x);
    o_read(x)
}
pub fn o_itfut(mut x: impl Iterator<Item = i64> + Future<Output = i64>) {
    note("next", x.next());
    o_fut(x)
}
pub fn o_rw(mut x: impl Read + io::Write) {
    note("write", x.write(b"abc").ok());
    note("all", x.write_all(b"xyz").is_ok());
    o_read(x)
}
