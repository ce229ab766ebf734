// Probe types and operation drivers for the enum_derive properties.
#![feature(trusted_len, fn_traits, unboxed_closures, coroutine_trait, coroutines, stmt_expr_attributes, formatting_options, unsized_fn_params)]
#![allow(clippy::all, dead_code, deprecated, unused_imports, internal_features, unexpected_cfgs)]
use std::collections::{BTreeSet, HashMap, LinkedList, VecDeque};
use std::fmt::{self, Display};
use std::future::Future;
use std::io::{self, BufRead, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use std::iter::{FusedIterator, TrustedLen};
use std::marker::PhantomPinned;
use std::ops::*;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

include!("cx.rs");

#[cfg(fx = "futures03")]
pub mod x_futures03;
#[cfg(fx = "futures01")]
pub mod x_futures01;
#[cfg(fx = "tokio1")]
pub mod x_tokio1;
#[cfg(fx = "tokio03")]
pub mod x_tokio03;
#[cfg(fx = "tokio02")]
pub mod x_tokio02;
#[cfg(fx = "tokio01")]
pub mod x_tokio01;
#[cfg(fx = "rayon")]
pub mod x_rayon;
#[cfg(fx = "serde")]
pub mod x_serde;
#[cfg(fx = "http_body1")]
pub mod x_body;

thread_local! {
    /// address at which a pinned probe was first seen, by id
    static PINNED: RefCell<HashMap<u64, usize>> = RefCell::new(HashMap::new());
    /// address of the last reference handed out by a probe
    static LAST: RefCell<usize> = const { RefCell::new(usize::MAX) };
    static EXTRA: RefCell<u64> = const { RefCell::new(0) };
}
pub fn set_last<T: ?Sized>(p: &T) {
    LAST.with(|l| *l.borrow_mut() = p as *const T as *const u8 as usize);
}
pub fn is_last<T: ?Sized>(p: &T) -> bool {
    LAST.with(|l| std::mem::replace(&mut *l.borrow_mut(), usize::MAX) == p as *const T as *const u8 as usize)
}

/// The probe: implements every supported trait; every method logs itself and its arguments, gives
/// pseudo-random answers that the trait's default methods would not give, and sometimes panics.
pub struct P<const K: u64> {
    pub id: u64,
    pub st: AtomicU64,
    pub quiet: bool,
    pub tgt: Tgt,
    pub arr: [u64; 5],
    pub text: String,
    pub cause: Option<Box<Cause>>,
    _pin: PhantomPinned,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tgt {
    pub a: u64,
    pub b: String,
}
#[derive(Debug)]
pub struct Cause {
    pub n: u64,
    pub next: Option<Box<Cause>>,
}
impl Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "cause{}", self.n)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.next.as_deref().map(|c| c as _)
    }
}

/// The outermost name of a type (its arguments may mention the enum).
pub fn tname<T>() -> &'static str {
    let n = std::any::type_name::<T>();
    &n[..n.find(|c| c == '<' || c == '{' || c == '(').unwrap_or(n.len())]
}

/// A fresh probe value; its behaviour depends on K and on the driver's seed only.
pub fn p<const K: u64>(d: &D) -> P<K> {
    let mut r = R::new(K.wrapping_mul(7919) ^ d.seed);
    let mut cause = None;
    for i in 0..r.n(3) {
        cause = Some(Box::new(Cause { n: r.n(100) * 10 + i, next: cause }));
    }
    PINNED.with(|p| p.borrow_mut().clear());
    P {
        id: K,
        st: AtomicU64::new(d.seed ^ K),
        quiet: false,
        tgt: Tgt { a: r.n(1000), b: format!("t{}", r.n(100)) },
        arr: [r.n(100), r.n(100), r.n(100), r.n(100), r.n(100)],
        text: format!("p{}-{}", K, r.n(1000)),
        cause,
        _pin: PhantomPinned,
    }
}
impl<const K: u64> Clone for P<K> {
    fn clone(&self) -> Self {
        P {
            id: self.id,
            st: AtomicU64::new(self.st.load(SeqCst)),
            quiet: self.quiet,
            tgt: self.tgt.clone(),
            arr: self.arr,
            text: self.text.clone(),
            cause: None,
            _pin: PhantomPinned,
        }
    }
}
impl<const K: u64> P<K> {
    /// One call of a method: logged, may panic; gives the pseudo-random source for the answer.
    pub fn c(&self, m: &str, args: fmt::Arguments<'_>) -> R {
        let s = self.st.fetch_add(0x632b_e59b, SeqCst);
        let mut r = R::new(s ^ hash(m) ^ K.rotate_left(17));
        if !self.quiet {
            log(format!("P{}.{m}({args})", self.id));
            if r.b(1, 60) {
                panic!("P{}.{m} panics {}", self.id, r.n(100));
            }
        }
        r
    }
    /// Like c for a method with a pinned receiver.
    pub fn pc(self: Pin<&Self>, m: &str, args: fmt::Arguments<'_>) -> R {
        let a = &*self as *const Self as usize;
        let first = PINNED.with(|p| *p.borrow_mut().entry(self.id).or_insert(a));
        if first != a {
            log(format!("P{} MOVED before {m}", self.id));
        }
        self.c(m, args)
    }
    pub fn wakes(&self, r: &mut R, cx: &mut Context<'_>) {
        if r.b(1, 2) {
            cx.waker().wake_by_ref();
        }
    }
}
impl<const K: u64> Drop for P<K> {
    fn drop(&mut self) {
        let a = self as *const Self as usize;
        let moved = PINNED.try_with(|p| p.borrow_mut().remove(&self.id).is_some_and(|x| x != a)).unwrap_or(false);
        log(format!("P{}.drop{}", self.id, if moved { " MOVED" } else { "" }));
    }
}

// ---------------------------------------------------------------- contexts
fn vt() -> &'static RawWakerVTable {
    fn cl(p: *const ()) -> RawWaker {
        log(format!("waker{}.clone", p as usize));
        RawWaker::new(p, vt())
    }
    fn wk(p: *const ()) {
        log(format!("waker{}.wake", p as usize));
    }
    fn wr(p: *const ()) {
        log(format!("waker{}.wake_by_ref", p as usize));
    }
    fn dr(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(cl, wk, wr, dr);
    &V
}
pub fn waker(id: u64) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(id as usize as *const (), vt())) }
}
/// Runs f with a task context whose waker is chosen by the driver.
pub fn with_cx<T>(d: &mut D, f: impl FnOnce(&mut Context<'_>) -> T) -> T {
    let w = waker(1 + d.r.n(3));
    let mut cx = Context::from_waker(&w);
    f(&mut cx)
}
pub fn cxs(cx: &Context<'_>) -> usize {
    cx.waker().data() as usize
}
pub fn poll_of<T>(r: &mut R, v: T) -> Poll<T> {
    if r.b(1, 3) { Poll::Pending } else { Poll::Ready(v) }
}
pub fn io_err(r: &mut R) -> io::Error {
    let k = *r.pick(&[io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof]);
    io::Error::new(k, format!("ioerr{}", r.n(1000)))
}
pub fn io_res<T>(r: &mut R, v: T) -> io::Result<T> {
    if r.b(1, 4) { Err(io_err(r)) } else { Ok(v) }
}
/// Notes an io::Result with the identity of the error.
pub fn note_io<T: Debug>(what: &str, r: io::Result<T>) {
    match r {
        Ok(v) => note(what, v),
        Err(e) => log(format!("{what} = Err({:?}, {e})", e.kind())),
    }
}
pub fn note_pio<T: Debug>(what: &str, r: Poll<io::Result<T>>) {
    match r {
        Poll::Pending => log(format!("{what} = Pending")),
        Poll::Ready(r) => note_io(what, r),
    }
}

// ---------------------------------------------------------------- iterators
impl<const K: u64> Iterator for P<K> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        let mut r = self.c("next", format_args!(""));
        if r.b(1, 5) { None } else { Some(r.n(100)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut r = self.c("size_hint", format_args!(""));
        (r.us(10), if r.b(1, 2) { None } else { Some(r.us(20)) })
    }
    fn count(self) -> usize {
        self.c("count", format_args!("")).us(50)
    }
    fn last(self) -> Option<u64> {
        let mut r = self.c("last", format_args!(""));
        if r.b(1, 3) { None } else { Some(r.n(100)) }
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        let mut r = self.c("nth", format_args!("{n}"));
        if r.b(1, 3) { None } else { Some(r.n(100)) }
    }
    fn collect<U: FromIterator<u64>>(self) -> U {
        let mut r = self.c("collect", format_args!("{}", tname::<U>()));
        let v: Vec<u64> = (0..r.n(6)).map(|_| r.n(100)).collect();
        v.into_iter().collect()
    }
    fn partition<U: Default + Extend<u64>, F: FnMut(&u64) -> bool>(self, mut f: F) -> (U, U) {
        let mut r = self.c("partition", format_args!(""));
        let (mut a, mut b) = (U::default(), U::default());
        for _ in 0..r.n(6) {
            let x = r.n(100);
            if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) }
        }
        (a, b)
    }
    fn fold<U, F: FnMut(U, u64) -> U>(self, init: U, mut f: F) -> U {
        let mut r = self.c("fold", format_args!(""));
        let mut acc = init;
        for _ in 0..r.n(6) {
            acc = f(acc, r.n(100));
        }
        acc
    }
    fn all<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> bool {
        let mut r = self.c("all", format_args!(""));
        let a = f(r.n(100));
        a ^ r.b(1, 2)
    }
    fn any<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> bool {
        let mut r = self.c("any", format_args!(""));
        let a = f(r.n(100));
        a ^ r.b(1, 2)
    }
    fn find<F: FnMut(&u64) -> bool>(&mut self, mut f: F) -> Option<u64> {
        let mut r = self.c("find", format_args!(""));
        let x = r.n(100);
        if f(&x) { Some(x) } else { None }
    }
    fn find_map<B, F: FnMut(u64) -> Option<B>>(&mut self, mut f: F) -> Option<B> {
        let mut r = self.c("find_map", format_args!(""));
        f(r.n(100))
    }
    fn position<F: FnMut(u64) -> bool>(&mut self, mut f: F) -> Option<usize> {
        let mut r = self.c("position", format_args!(""));
        if f(r.n(100)) { Some(r.us(30)) } else { None }
    }
}
impl<const K: u64> DoubleEndedIterator for P<K> {
    fn next_back(&mut self) -> Option<u64> {
        let mut r = self.c("next_back", format_args!(""));
        if r.b(1, 5) { None } else { Some(r.n(100)) }
    }
    fn nth_back(&mut self, n: usize) -> Option<u64> {
        let mut r = self.c("nth_back", format_args!("{n}"));
        if r.b(1, 3) { None } else { Some(r.n(100)) }
    }
    fn rfold<U, F: FnMut(U, u64) -> U>(self, init: U, mut f: F) -> U {
        let mut r = self.c("rfold", format_args!(""));
        let mut acc = init;
        for _ in 0..r.n(6) {
            acc = f(acc, r.n(100));
        }
        acc
    }
    fn rfind<F: FnMut(&u64) -> bool>(&mut self, mut f: F) -> Option<u64> {
        let mut r = self.c("rfind", format_args!(""));
        let x = r.n(100);
        if f(&x) { Some(x) } else { None }
    }
}
impl<const K: u64> ExactSizeIterator for P<K> {
    fn len(&self) -> usize {
        self.c("len", format_args!("")).us(40)
    }
}
impl<const K: u64> FusedIterator for P<K> {}
/// A probe whose length can be trusted: std uses it, so its answers are consistent.
pub struct PT<const K: u64>(std::vec::IntoIter<u64>);
pub fn pt<const K: u64>(d: &D) -> PT<K> {
    let mut r = R::new(d.seed ^ K);
    PT((0..r.n(8)).map(|_| r.n(100)).collect::<Vec<_>>().into_iter())
}
impl<const K: u64> Iterator for PT<K> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        log(format!("PT{K}.next"));
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        log(format!("PT{K}.size_hint"));
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        log(format!("PT{K}.nth {n}"));
        self.0.nth(n)
    }
    fn fold<U, F: FnMut(U, u64) -> U>(self, init: U, f: F) -> U {
        log(format!("PT{K}.fold"));
        self.0.fold(init, f)
    }
}
impl<const K: u64> DoubleEndedIterator for PT<K> {
    fn next_back(&mut self) -> Option<u64> {
        log(format!("PT{K}.next_back"));
        self.0.next_back()
    }
}
impl<const K: u64> ExactSizeIterator for PT<K> {}
impl<const K: u64> FusedIterator for PT<K> {}
unsafe impl<const K: u64> TrustedLen for PT<K> {}
impl<const K: u64> Extend<u64> for P<K> {
    fn extend<I: IntoIterator<Item = u64>>(&mut self, it: I) {
        let mut r = self.c("extend", format_args!("{}", tname::<I>()));
        let v: Vec<u64> = it.into_iter().take(3 + r.us(4)).collect();
        log(format!("  took {v:?}"));
    }
}
impl<'x, const K: u64> Extend<&'x str> for P<K> {
    fn extend<I: IntoIterator<Item = &'x str>>(&mut self, it: I) {
        let mut r = self.c("extend str", format_args!("{}", tname::<I>()));
        let v: Vec<&str> = it.into_iter().take(3 + r.us(4)).collect();
        log(format!("  took {v:?}"));
    }
}

pub fn hx<T: Debug>(x: &T) -> u64 {
    hash(&format!("{x:?}"))
}
/// One operation through &mut.
pub fn it_op<I: Iterator>(i: &mut I, d: &mut D)
where
    I::Item: Debug,
{
    let m = d.r.n(5) + 2;
    match d.r.n(14) {
        0 | 1 => note("next", i.next()),
        2 => note("size_hint", i.size_hint()),
        3 => {
            let n = d.r.us(4);
            note("nth", i.nth(n))
        }
        4 => note("all", i.all(|x| hx(&x) % m != 0)),
        5 => note("any", i.any(|x| hx(&x) % m == 0)),
        6 => note("find", i.find(|x| hx(x) % m == 0)),
        7 => note("find_map", i.find_map(|x| if hx(&x) % m == 0 { Some(hx(&x)) } else { None })),
        8 => note("position", i.position(|x| hx(&x) % m == 0)),
        9 => {
            let n = d.r.us(4);
            let v: Vec<I::Item> = i.by_ref().take(n).collect();
            note("by_ref.take.collect", v)
        }
        10 => {
            let r: Result<u64, u64> = i.try_fold(0u64, |a, x| if a > 200 { Err(hx(&x) % 10) } else { Ok(a + hx(&x) % 100) });
            note("try_fold", r)
        }
        11 => {
            let r: Option<()> = i.try_for_each(|x| if hx(&x) % m == 0 { None } else { Some(()) });
            note("try_for_each", r)
        }
        12 => {
            let v: Vec<u64> = i.by_ref().map_while(|x| if hx(&x) % m == 0 { None } else { Some(hx(&x)) }).take(9).collect();
            note("map_while", v)
        }
        _ => {
            let mut p = i.by_ref().peekable();
            note("peek", p.peek().map(hx));
        }
    }
}
pub fn it_end<I: Iterator>(i: I, d: &mut D)
where
    I::Item: Debug,
{
    let m = d.r.n(5) + 2;
    match d.r.n(22) {
        0 => note("count", i.count()),
        1 => note("last", i.last()),
        2 => note("collect vec", i.collect::<Vec<_>>()),
        3 => note("collect list", i.map(|x| hx(&x)).collect::<LinkedList<_>>()),
        4 => note("collect", i.collect::<VecDeque<_>>()),
        5 => note("partition", i.partition::<Vec<_>, _>(|x| hx(x) % m == 0)),
        6 | 7 => note("fold", i.fold(7u64, |a, x| a.wrapping_mul(31) ^ hx(&x))),
        8 => i.for_each(|x| log(format!("each {x:?}"))),
        9 => note("max_by_key", i.max_by_key(|x| hx(x) % m)),
        10 => note("min_by", i.min_by(|a, b| hx(a).cmp(&hx(b)))),
        11 => note("reduce", i.reduce(|a, b| if hx(&a) > hx(&b) { a } else { b })),
        12 => note("map.sum", i.map(|x| hx(&x) % 100).sum::<u64>()),
        13 => note("skip.step", i.skip(d.r.us(3)).step_by(1 + d.r.us(3)).take(12).collect::<Vec<_>>()),
        14 => note("filter.enumerate", i.filter(|x| hx(x) % m != 0).enumerate().take(12).collect::<Vec<_>>()),
        15 => note("take.count", i.take(d.r.us(5)).count()),
        16 => note("fuse", i.fuse().take(20).collect::<Vec<_>>()),
        17 => note("chain", i.take(3).map(|x| hx(&x)).chain([1, 2, 3]).collect::<Vec<_>>()),
        18 => note("scan", i.scan(0, |a, x| { *a += 1; if *a > m { None } else { Some(hx(&x)) } }).collect::<Vec<_>>()),
        19 => note("is_sorted", i.take(50).map(|x| hx(&x)).is_sorted()),
        20 => {
            let mut n = 0;
            for x in i {
                log(format!("for {x:?}"));
                n += 1;
                if n > m { break }
            }
        }
        _ => drop(i),
    }
}
pub fn dei_op<I: DoubleEndedIterator>(i: &mut I, d: &mut D)
where
    I::Item: Debug,
{
    let m = d.r.n(5) + 2;
    match d.r.n(6) {
        0 | 1 => note("next_back", i.next_back()),
        2 => {
            let n = d.r.us(4);
            note("nth_back", i.nth_back(n))
        }
        3 => note("rfind", i.rfind(|x| hx(x) % m == 0)),
        4 => {
            let r: Result<u64, u64> = i.try_rfold(0u64, |a, x| if a > 200 { Err(hx(&x) % 10) } else { Ok(a + hx(&x) % 100) });
            note("try_rfold", r)
        }
        _ => {
            let n = d.r.us(4);
            let v: Vec<I::Item> = i.by_ref().rev().take(n).collect();
            note("by_ref.rev.take", v)
        }
    }
}
pub fn dei_end<I: DoubleEndedIterator>(i: I, d: &mut D)
where
    I::Item: Debug,
{
    let m = d.r.n(5) + 2;
    match d.r.n(6) {
        0 | 1 => note("rfold", i.rfold(7u64, |a, x| a.wrapping_mul(31) ^ hx(&x))),
        2 => note("rev.fold", i.rev().fold(7u64, |a, x| a.wrapping_mul(31) ^ hx(&x))),
        3 => note("rev.take", i.rev().take(7).collect::<Vec<_>>()),
        4 => note("rev.find", i.rev().find(|x| hx(x) % m == 0)),
        _ => note("filter.rev", i.filter(|x| hx(x) % m == 0).rev().take(9).collect::<Vec<_>>()),
    }
}
pub fn esi_op<I: ExactSizeIterator>(i: &mut I, d: &mut D) {
    note("len", i.len())
}
pub fn esi_end<I: ExactSizeIterator>(i: I, d: &mut D)
where
    I::Item: Debug,
{
    match d.r.n(3) {
        0 => note("enumerate.len", i.enumerate().len()),
        1 => note("map.len", i.map(|x| hx(&x)).len()),
        _ => note("peekable.len", i.peekable().len()),
    }
}
pub fn ext_op<E: Extend<u64>>(e: &mut E, d: &mut D) {
    match d.r.n(4) {
        0 => {
            let v: Vec<u64> = (0..d.r.n(9)).collect();
            e.extend(v)
        }
        1 => e.extend(Some(d.r.n(50))),
        2 => {
            let n = d.r.n(6);
            e.extend((0..n).map(|x| { log(format!("pulled {x}")); x * 3 }))
        }
        _ => e.extend([1, 2, d.r.n(9)]),
    }
}
pub fn exts_op<'x, E: Extend<&'x str>>(e: &mut E, d: &mut D) {
    match d.r.n(3) {
        0 => e.extend(["a", "b"]),
        1 => e.extend(Some("z")),
        _ => e.extend(["q", "r", "s", "t", "u"].into_iter().take(d.r.us(6))),
    }
}
pub fn is_fused<T: FusedIterator>(_: &T) {}
pub fn is_trusted<T: TrustedLen>(_: &T) {}

/// A sequence of operations through &mut, then one by value.
pub fn forget_last() {
    LAST.with(|l| *l.borrow_mut() = usize::MAX);
}
pub fn drive<T>(mut v: T, d: &mut D, ops: &[fn(&mut T, &mut D)], ends: &[fn(T, &mut D)]) {
    if !ops.is_empty() {
        for _ in 0..d.r.n(9) {
            let f = *d.r.pick(ops);
            forget_last();
            f(&mut v, d);
        }
    }
    if !ends.is_empty() {
        let f = *d.r.pick(ends);
        f(v, d);
    }
}
/// A sequence of operations on the pinned value, which is then dropped in place.
pub fn drive_pin<T>(v: T, d: &mut D, ops: &[fn(Pin<&mut T>, &mut D)]) {
    let mut b = Box::pin(v);
    for _ in 0..1 + d.r.n(9) {
        let f = *d.r.pick(ops);
        forget_last();
        f(b.as_mut(), d);
    }
}
/// Operations through & only.
pub fn drive_ref<T>(v: T, d: &mut D, ops: &[fn(&T, &mut D)]) {
    for _ in 0..1 + d.r.n(6) {
        let f = *d.r.pick(ops);
        forget_last();
        f(&v, d);
    }
}

// ---------------------------------------------------------------- future, coroutine
impl<const K: u64> Future for P<K> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let mut r = self.as_ref().pc("poll", format_args!("cx{}", cxs(cx)));
        self.wakes(&mut r, cx);
        let v = r.n(1000);
        if r.b(2, 3) { Poll::Pending } else { Poll::Ready(v) }
    }
}
pub fn fut_op<F: Future>(f: Pin<&mut F>, d: &mut D)
where
    F::Output: Debug,
{
    let r = with_cx(d, |cx| f.poll(cx));
    note("poll", r);
}
/// Polls to completion only: for futures that must not be polled again.
pub fn fut_done<F: Future>(v: F, d: &mut D)
where
    F::Output: Debug,
{
    let mut b = Box::pin(v);
    for _ in 0..1 + d.r.n(12) {
        let r = with_cx(d, |cx| b.as_mut().poll(cx));
        let done = r.is_ready();
        note("poll", r);
        if done {
            break;
        }
    }
}
/// A self-referential future with n suspension points.
pub async fn selfref(n: u64, k: u64) -> u64 {
    let here = [n, k, 7];
    let r = &here;
    let mut acc = 0;
    for i in 0..n {
        YieldNow(false).await;
        log(format!("selfref step {i} sees {:?} at {}", r, std::ptr::eq(r, &here)));
        acc += r[1] + i;
    }
    acc
}
pub struct YieldNow(pub bool);
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
impl<const K: u64> Coroutine<u64> for P<K> {
    type Yield = u64;
    type Return = String;
    fn resume(self: Pin<&mut Self>, arg: u64) -> CoroutineState<u64, String> {
        let mut r = self.as_ref().pc("resume", format_args!("{arg}"));
        if r.b(2, 3) { CoroutineState::Yielded(r.n(100)) } else { CoroutineState::Complete(format!("r{}", r.n(100))) }
    }
}
impl<'a, const K: u64> Coroutine<&'a [String]> for P<K> {
    type Yield = Option<&'a String>;
    type Return = String;
    fn resume(self: Pin<&mut Self>, arg: &'a [String]) -> CoroutineState<Option<&'a String>, String> {
        let mut r = self.as_ref().pc("resume ref", format_args!("{arg:?}"));
        if r.b(2, 3) { CoroutineState::Yielded(arg.get(r.us(4))) } else { CoroutineState::Complete(format!("r{}", r.n(100))) }
    }
}
pub fn co_ref_op<C: for<'z> Coroutine<&'z [String], Yield = Option<&'z String>, Return = String>>(c: Pin<&mut C>, d: &mut D) {
    let v = strings(d);
    match c.resume(&v[..]) {
        CoroutineState::Yielded(y) => note("yield", y),
        CoroutineState::Complete(y) => note("complete", y),
    }
}
pub fn co_op<C: Coroutine<u64>>(c: Pin<&mut C>, d: &mut D)
where
    C::Yield: Debug,
    C::Return: Debug,
{
    let a = d.r.n(100);
    let r = c.resume(a);
    match r {
        CoroutineState::Yielded(y) => note("yield", y),
        CoroutineState::Complete(y) => note("complete", y),
    }
}
pub fn co_done<C: Coroutine<u64>>(v: C, d: &mut D)
where
    C::Yield: Debug,
    C::Return: Debug,
{
    let mut b = Box::pin(v);
    for _ in 0..1 + d.r.n(6) {
        let a = d.r.n(100);
        match b.as_mut().resume(a) {
            CoroutineState::Yielded(y) => note("yield", y),
            CoroutineState::Complete(y) => {
                note("complete", y);
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- io
impl<const K: u64> Read for P<K> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut r = self.c("read", format_args!("{buf:?}"));
        let n = r.us(buf.len() + 1);
        buf[..n].iter_mut().for_each(|b| *b = r.n(256) as u8);
        io_res(&mut r, n)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let mut r = self.c("read_vectored", format_args!("{:?}", bufs.iter().map(|b| b.len()).collect::<Vec<_>>()));
        let mut n = 0;
        for b in bufs.iter_mut() {
            b.iter_mut().for_each(|b| *b = r.n(256) as u8);
            n += b.len();
        }
        io_res(&mut r, n)
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        let mut r = self.c("read_to_end", format_args!("{buf:?}"));
        let v = r.bytes(9);
        buf.extend_from_slice(&v);
        io_res(&mut r, v.len() + 100)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        let mut r = self.c("read_to_string", format_args!("{buf:?}"));
        let v = format!("s{}", r.n(1000));
        buf.push_str(&v);
        io_res(&mut r, v.len() + 200)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let mut r = self.c("read_exact", format_args!("{buf:?}"));
        buf.iter_mut().for_each(|b| *b = r.n(256) as u8);
        io_res(&mut r, ())
    }
}
impl<const K: u64> BufRead for P<K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let mut r = self.c("fill_buf", format_args!(""));
        if r.b(1, 4) {
            return Err(io_err(&mut r));
        }
        let n = r.us(self.text.len() + 1);
        let s = &self.text.as_bytes()[..n];
        set_last(s);
        Ok(s)
    }
    fn consume(&mut self, amt: usize) {
        self.c("consume", format_args!("{amt}"));
    }
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> io::Result<usize> {
        let mut r = self.c("read_until", format_args!("{byte} {buf:?}"));
        let v = r.bytes(9);
        buf.extend_from_slice(&v);
        io_res(&mut r, v.len())
    }
    fn read_line(&mut self, buf: &mut String) -> io::Result<usize> {
        let mut r = self.c("read_line", format_args!("{buf:?}"));
        let v = format!("l{}\n", r.n(1000));
        buf.push_str(&v);
        let n = if r.b(1, 4) { 0 } else { v.len() + 200 };
        io_res(&mut r, n)
    }
}
impl<const K: u64> Write for P<K> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut r = self.c("write", format_args!("{buf:?}"));
        let n = r.us(buf.len() + 1);
        io_res(&mut r, n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let mut r = self.c("write_vectored", format_args!("{:?}", bufs));
        let n = r.us(30);
        io_res(&mut r, n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut r = self.c("flush", format_args!(""));
        io_res(&mut r, ())
    }
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        let mut r = self.c("write_all", format_args!("{buf:?}"));
        io_res(&mut r, ())
    }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> {
        let mut r = self.c("io::write_fmt", format_args!("{a}"));
        io_res(&mut r, ())
    }
}
impl<const K: u64> Seek for P<K> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let mut r = self.c("seek", format_args!("{pos:?}"));
        let n = r.n(1000);
        io_res(&mut r, n)
    }
}
pub fn read_op<T: Read>(t: &mut T, d: &mut D) {
    match d.r.n(9) {
        0 | 1 => {
            let mut b = vec![0xAA; d.r.us(7)];
            let r = t.read(&mut b);
            note_io("read", r);
            note("buf", b)
        }
        2 => {
            let (mut a, mut b) = (vec![1u8; d.r.us(5)], vec![2u8; d.r.us(5)]);
            let r = t.read_vectored(&mut [IoSliceMut::new(&mut a), IoSliceMut::new(&mut b)]);
            note_io("read_vectored", r);
            note("bufs", (a, b))
        }
        3 => {
            let mut b = d.r.bytes(3);
            let r = t.read_to_end(&mut b);
            note_io("read_to_end", r);
            note("buf", b)
        }
        4 => {
            let mut b = String::from("x");
            let r = t.read_to_string(&mut b);
            note_io("read_to_string", r);
            note("buf", b)
        }
        5 => {
            let mut b = vec![0xBB; d.r.us(7)];
            let r = t.read_exact(&mut b);
            note_io("read_exact", r);
            note("buf", b)
        }
        6 => {
            let r: Result<Vec<u8>, _> = t.by_ref().bytes().take(4).collect();
            note_io("bytes", r)
        }
        7 => {
            let mut b = vec![];
            let r = t.by_ref().take(5).read_to_end(&mut b);
            note_io("take.read_to_end", r);
            note("buf", b)
        }
        _ => {
            let mut b = vec![0; 4];
            let r = (&b"ab"[..]).chain(t.by_ref()).read(&mut b);
            note_io("chain.read", r);
            note("buf", b)
        }
    }
}
pub fn bufread_op<T: BufRead>(t: &mut T, d: &mut D) {
    match d.r.n(7) {
        0 | 1 => {
            let r = t.fill_buf().map(|b| (b.to_vec(), is_last(b)));
            note_io("fill_buf", r)
        }
        2 => {
            // within what a std reader has buffered
            let n = t.fill_buf().map(|b| b.len()).unwrap_or(0);
            t.consume(d.r.us(n + 1));
        }
        3 => {
            let mut b = d.r.bytes(2);
            let by = d.r.n(256) as u8;
            let r = t.read_until(by, &mut b);
            note_io("read_until", r);
            note("buf", b)
        }
        4 => {
            let mut b = String::from("y");
            let r = t.read_line(&mut b);
            note_io("read_line", r);
            note("buf", b)
        }
        5 => {
            let r: Result<Vec<Vec<u8>>, _> = t.by_ref().split(b'n').take(3).collect();
            note_io("split", r)
        }
        _ => {
            let r: Result<Vec<String>, _> = t.by_ref().lines().take(3).collect();
            note_io("lines", r)
        }
    }
}
pub fn write_op<T: Write>(t: &mut T, d: &mut D) {
    let b = d.r.bytes(6);
    match d.r.n(7) {
        0 | 1 => note_io("write", t.write(&b)),
        2 => {
            let c = d.r.bytes(4);
            note_io("write_vectored", t.write_vectored(&[IoSlice::new(&b), IoSlice::new(&c)]))
        }
        3 => note_io("flush", t.flush()),
        4 => note_io("write_all", t.write_all(&b)),
        5 => note_io("write_fmt", write!(t, "[{}-{:?}]", d.r.n(100), b)),
        _ => note_io("by_ref.write", t.by_ref().write(&b)),
    }
}
pub fn seek_op<T: Seek>(t: &mut T, d: &mut D) {
    let n = d.r.n(40);
    match d.r.n(6) {
        0 | 1 => note_io("seek", t.seek(SeekFrom::Start(n))),
        2 => note_io("seek", t.seek(SeekFrom::Current(n as i64 - 20))),
        3 => note_io("seek", t.seek(SeekFrom::End(n as i64 - 30))),
        4 => note_io("stream_position", t.stream_position()),
        _ => note_io("rewind", t.rewind()),
    }
}

// ---------------------------------------------------------------- fmt
macro_rules! fmt_probe { ($($tr:ident $name:literal,)*) => { $(
    impl<const K: u64> fmt::$tr for P<K> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut r = self.c($name, format_args!(
                "w{:?} p{:?} fill{:?} al{:?} +{} -{} #{} 0{}", f.width(), f.precision(), f.fill(),
                f.align().map(|a| match a { fmt::Alignment::Left => 1, fmt::Alignment::Right => 2, fmt::Alignment::Center => 3 }),
                f.sign_plus(), f.sign_minus(), f.alternate(), f.sign_aware_zero_pad()));
            for _ in 0..r.n(4) {
                match r.n(5) {
                    0 => f.write_str(&format!("{}{}", $name, r.n(50)))?,
                    1 => f.pad(&self.text)?,
                    2 => f.pad_integral(r.b(1, 2), "0q", &r.n(900).to_string())?,
                    3 => fmt::Write::write_char(f, 'é')?,
                    _ => f.debug_struct("Z").field("k", &r.n(50)).finish()?,
                }
            }
            if r.b(1, 8) { Err(fmt::Error) } else { Ok(()) }
        }
    }
)* } }
fmt_probe! { Debug "Debug", Display "Display", Binary "Binary", Octal "Octal", LowerHex "LowerHex", UpperHex "UpperHex",
    LowerExp "LowerExp", UpperExp "UpperExp", Pointer "Pointer", }
impl<const K: u64> fmt::Write for P<K> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut r = self.c("write_str", format_args!("{s:?}"));
        if r.b(1, 5) { Err(fmt::Error) } else { Ok(()) }
    }
    fn write_char(&mut self, s: char) -> fmt::Result {
        let mut r = self.c("write_char", format_args!("{s:?}"));
        if r.b(1, 5) { Err(fmt::Error) } else { Ok(()) }
    }
    fn write_fmt(&mut self, s: fmt::Arguments<'_>) -> fmt::Result {
        let mut r = self.c("fmt::write_fmt", format_args!("{s}"));
        if r.b(1, 5) { Err(fmt::Error) } else { Ok(()) }
    }
}
pub fn fmtw_op<T: fmt::Write>(t: &mut T, d: &mut D) {
    match d.r.n(4) {
        0 => note("write_str", t.write_str("strß")),
        1 => note("write_char", t.write_char(*d.r.pick(&['a', 'ß', '\n']))),
        2 => note("write_fmt", write!(t, "<{:>4}>", d.r.n(100))),
        _ => note("by_ref", fmt::write(t, format_args!("{}{}", 1, "two"))),
    }
}
/// A destination that logs what it gets and fails after a while.
struct Dest(usize);
impl fmt::Write for Dest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0 == 0 {
            log("dest fails".into());
            return Err(fmt::Error);
        }
        self.0 -= 1;
        log(format!("dest {s:?}"));
        Ok(())
    }
}
pub fn fmt_with(d: &mut D, what: &str, f: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) {
    let mut o = fmt::FormattingOptions::new();
    if d.r.b(1, 2) {
        o.width(Some(d.r.n(20) as _));
    }
    if d.r.b(1, 3) {
        o.precision(Some(d.r.n(9) as _));
    }
    if d.r.b(1, 3) {
        o.fill(*d.r.pick(&[' ', '*', 'ß', '0']));
    }
    o.align(*d.r.pick(&[None, Some(fmt::Alignment::Left), Some(fmt::Alignment::Right), Some(fmt::Alignment::Center)]));
    o.alternate(d.r.b(1, 3));
    o.sign(*d.r.pick(&[None, None, Some(fmt::Sign::Plus), Some(fmt::Sign::Minus)]));
    o.sign_aware_zero_pad(d.r.b(1, 4));
    o.debug_as_hex(*d.r.pick(&[None, None, Some(fmt::DebugAsHex::Lower), Some(fmt::DebugAsHex::Upper)]));
    let mut dest = Dest(if d.r.b(1, 6) { d.r.us(3) } else { 1000 });
    let mut fm = o.create_formatter(&mut dest);
    let r = f(&mut fm);
    note(what, r);
}
macro_rules! fmt_ops { ($($f:ident $tr:ident $a:literal $b:literal $c:literal $e:literal,)*) => { $(
    pub fn $f<T: fmt::$tr>(t: &T, d: &mut D) {
        match d.r.n(6) {
            0 => fmt_lit(d, format_args!($a, t)),
            1 => fmt_lit(d, format_args!($b, t)),
            2 => fmt_lit(d, format_args!($c, t)),
            3 => fmt_lit(d, format_args!($e, t)),
            _ => fmt_with(d, stringify!($tr), &mut |f| fmt::$tr::fmt(t, f)),
        }
    }
)* } }
pub fn fmt_lit(d: &mut D, a: fmt::Arguments<'_>) {
    let mut dest = Dest(if d.r.b(1, 6) { d.r.us(3) } else { 1000 });
    let r = fmt::write(&mut dest, a);
    note("format", r);
}
fmt_ops! {
    debug_op Debug "{:?}" "{:#?}" "<{:>12.3?}>" "{:02x?}",
    display_op Display "{}" "{:#}" "{:*^14.4}" "{:+}",
    binary_op Binary "{:b}" "{:#b}" "{:012b}" "{:+b}",
    octal_op Octal "{:o}" "{:#o}" "{:<12o}" "{:+o}",
    lhex_op LowerHex "{:x}" "{:#x}" "{:#012x}" "{:+x}",
    uhex_op UpperHex "{:X}" "{:#X}" "{:#012X}" "{:^9X}",
    lexp_op LowerExp "{:e}" "{:.2e}" "{:+012e}" "{:>9e}",
    uexp_op UpperExp "{:E}" "{:.2E}" "{:+012E}" "{:>9E}",
    }
pub fn ptr_op<T: fmt::Pointer>(t: &T, d: &mut D) {
    struct W<'a, T>(&'a T);
    impl<T: fmt::Pointer> fmt::Pointer for W<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Pointer::fmt(self.0, f)
        }
    }
    let t = W(t);
    match d.r.n(6) {
        0 => fmt_lit(d, format_args!("{:p}", t)),
        1 => fmt_lit(d, format_args!("{:#p}", t)),
        2 => fmt_lit(d, format_args!("{:24p}", t)),
        3 => fmt_lit(d, format_args!("{:<24p}", t)),
        _ => fmt_with(d, "Pointer", &mut |f| fmt::Pointer::fmt(&t, f)),
    }
}

// ---------------------------------------------------------------- error
impl<const K: u64> std::error::Error for P<K> {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.c("source", format_args!(""));
        self.cause.as_deref().map(|c| c as _)
    }
    fn description(&self) -> &str {
        self.c("description", format_args!(""));
        set_last(&*self.text);
        &self.text
    }
    fn cause(&self) -> Option<&dyn std::error::Error> {
        self.c("cause", format_args!(""));
        None
    }
}
/// The enum's side and the bare side differ by design here: source() of the enum is the held error.
pub fn err_enum<E: std::error::Error + 'static, B: std::error::Error + 'static>(e: E, bare: fn(&E) -> &B, d: &mut D) {
    let dy: &(dyn std::error::Error + 'static) = &e;
    let b = bare(&e);
    note("description", (dy.description().to_string(), true));
    note("display", format!("{:>9}|{:?}|{:#?}", dy, dy, dy));
    let s = dy.source();
    note("source", s.and_then(|s| s.downcast_ref::<B>()).is_some_and(|x| std::ptr::eq(x, b)));
    if let Some(s) = s {
        note("source display", s.to_string());
        let mut n = 0;
        let mut cur = s.source();
        while let Some(c) = cur {
            note("link", format!("{c} {c:?}"));
            cur = c.source();
            n += 1;
        }
        note("links", n);
    }
}
pub fn err_bare<B: std::error::Error + 'static>(b: B, d: &mut D) {
    let s: &(dyn std::error::Error + 'static) = &b;
    note("description", (s.description().to_string(), true));
    note("display", format!("{:>9}|{:?}|{:#?}", s, s, s));
    note("source", true);
    note("source display", s.to_string());
    let mut n = 0;
    let mut cur = s.source();
    while let Some(c) = cur {
        note("link", format!("{c} {c:?}"));
        cur = c.source();
        n += 1;
    }
    note("links", n);
}

// ---------------------------------------------------------------- ops, convert
impl<const K: u64> Deref for P<K> {
    type Target = Tgt;
    fn deref(&self) -> &Tgt {
        self.c("deref", format_args!(""));
        set_last(&self.tgt);
        &self.tgt
    }
}
impl<const K: u64> DerefMut for P<K> {
    fn deref_mut(&mut self) -> &mut Tgt {
        self.c("deref_mut", format_args!(""));
        set_last(&self.tgt);
        &mut self.tgt
    }
}
impl<const K: u64> Index<usize> for P<K> {
    type Output = u64;
    fn index(&self, i: usize) -> &u64 {
        P::c(self, "index", format_args!("{i}"));
        let r = &self.arr[i];
        set_last(r);
        r
    }
}
impl<const K: u64> IndexMut<usize> for P<K> {
    fn index_mut(&mut self, i: usize) -> &mut u64 {
        P::c(self, "index_mut", format_args!("{i}"));
        let r = &mut self.arr[i];
        set_last(r);
        r
    }
}
/// Index types that are not Copy, borrow, or have an unsized output.
impl<const K: u64> Index<std::ops::Range<usize>> for P<K> {
    type Output = [u64];
    fn index(&self, i: std::ops::Range<usize>) -> &[u64] {
        P::c(self, "index range", format_args!("{i:?}"));
        let r = &self.arr[i];
        set_last(r);
        r
    }
}
impl<const K: u64> IndexMut<std::ops::Range<usize>> for P<K> {
    fn index_mut(&mut self, i: std::ops::Range<usize>) -> &mut [u64] {
        P::c(self, "index_mut range", format_args!("{i:?}"));
        let r = &mut self.arr[i];
        set_last(r);
        r
    }
}
impl<'a, const K: u64> Index<&'a str> for P<K> {
    type Output = u64;
    fn index(&self, i: &'a str) -> &u64 {
        P::c(self, "index str", format_args!("{i}"));
        let r = &self.arr[i.len()];
        set_last(r);
        r
    }
}
impl<'a, const K: u64> IndexMut<&'a str> for P<K> {
    fn index_mut(&mut self, i: &'a str) -> &mut u64 {
        P::c(self, "index_mut str", format_args!("{i}"));
        let r = &mut self.arr[i.len()];
        set_last(r);
        r
    }
}
impl<const K: u64> AsRef<str> for P<K> {
    fn as_ref(&self) -> &str {
        P::c(self, "as_ref str", format_args!(""));
        set_last(&*self.text);
        &self.text
    }
}
impl<const K: u64> AsRef<[u64]> for P<K> {
    fn as_ref(&self) -> &[u64] {
        P::c(self, "as_ref [u64]", format_args!(""));
        set_last(&self.arr[1..]);
        &self.arr[1..]
    }
}
impl<const K: u64> AsMut<[u64]> for P<K> {
    fn as_mut(&mut self) -> &mut [u64] {
        P::c(self, "as_mut [u64]", format_args!(""));
        set_last(&self.arr[1..]);
        &mut self.arr[1..]
    }
}
impl<const K: u64> AsMut<Tgt> for P<K> {
    fn as_mut(&mut self) -> &mut Tgt {
        P::c(self, "as_mut Tgt", format_args!(""));
        set_last(&self.tgt);
        &mut self.tgt
    }
}
impl<const K: u64> RangeBounds<u64> for P<K> {
    fn start_bound(&self) -> Bound<&u64> {
        let mut r = P::c(self, "start_bound", format_args!(""));
        set_last(&self.arr[0]);
        match r.n(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.arr[0]),
            _ => Bound::Excluded(&self.arr[0]),
        }
    }
    fn end_bound(&self) -> Bound<&u64> {
        let mut r = P::c(self, "end_bound", format_args!(""));
        set_last(&self.arr[1]);
        match r.n(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.arr[1]),
            _ => Bound::Excluded(&self.arr[1]),
        }
    }
}
impl<const K: u64> RangeBounds<str> for P<K> {
    fn start_bound(&self) -> Bound<&str> {
        let mut r = P::c(self, "start_bound str", format_args!(""));
        set_last(&*self.text);
        match r.n(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.text),
            _ => Bound::Excluded(&self.text),
        }
    }
    fn end_bound(&self) -> Bound<&str> {
        let mut r = P::c(self, "end_bound str", format_args!(""));
        set_last(&*self.text);
        match r.n(3) {
            0 => Bound::Unbounded,
            1 => Bound::Included(&self.text),
            _ => Bound::Excluded(&self.text),
        }
    }
}
pub fn deref_op<T: Deref>(t: &T, d: &mut D)
where
    T::Target: Debug,
{
    let x = T::deref(t);
    note("deref", (x, is_last(x)));
}
pub trait Touch {
    fn touch(&mut self, r: &mut R);
}
impl Touch for Tgt {
    fn touch(&mut self, r: &mut R) {
        self.a = r.n(999)
    }
}
impl Touch for u64 {
    fn touch(&mut self, r: &mut R) {
        *self = r.n(999)
    }
}
impl<T: Touch> Touch for [T] {
    fn touch(&mut self, r: &mut R) {
        for x in self {
            x.touch(r)
        }
    }
}
impl Touch for str {
    fn touch(&mut self, r: &mut R) {
        if r.b(1, 2) { self.make_ascii_uppercase() } else { self.make_ascii_lowercase() }
    }
}
pub fn deref_mut_op<T: DerefMut>(t: &mut T, d: &mut D)
where
    T::Target: Debug + Touch,
{
    if d.r.b(1, 3) {
        let x = T::deref(t);
        return note("deref", (x, is_last(x)));
    }
    let x = T::deref_mut(t);
    note("deref_mut", is_last(x));
    x.touch(&mut d.r);
    note("now", &*x);
}
pub fn index_op<T: Index<usize>>(t: &T, d: &mut D)
where
    T::Output: Debug,
{
    let i = d.r.us(6);
    let x = T::index(t, i);
    note("index", (x, is_last(x)));
}
pub fn index_range_op<T: Index<std::ops::Range<usize>, Output = [u64]> + for<'z> Index<&'z str>>(t: &T, d: &mut D)
where
    for<'z> <T as Index<&'z str>>::Output: Debug + Sized,
{
    let i = d.r.us(4);
    if d.r.b(1, 2) {
        let x = <T as Index<std::ops::Range<usize>>>::index(t, i..i + d.r.us(3));
        note("index range", (x, is_last(x)));
    } else {
        let s = "x".repeat(i);
        let x = <T as Index<&str>>::index(t, &s);
        note("index str", (x, is_last(x)));
    }
}
pub fn index_mut_range_op<T: IndexMut<std::ops::Range<usize>, Output = [u64]> + for<'z> IndexMut<&'z str>>(t: &mut T, d: &mut D)
where
    for<'z> <T as Index<&'z str>>::Output: Debug + Sized + Touch,
{
    let i = d.r.us(4);
    if d.r.b(1, 2) {
        let x = <T as IndexMut<std::ops::Range<usize>>>::index_mut(t, i..i + d.r.us(3));
        note("index_mut range", is_last(x));
        x.touch(&mut d.r);
        note("now", &*x);
    } else {
        let s = "x".repeat(i);
        let x = <T as IndexMut<&str>>::index_mut(t, &s);
        note("index_mut str", is_last(x));
        x.touch(&mut d.r);
        note("now", &*x);
    }
}
pub fn index_mut_op<T: IndexMut<usize>>(t: &mut T, d: &mut D)
where
    T::Output: Debug + Touch,
{
    let i = d.r.us(6);
    if d.r.b(1, 3) {
        let x = T::index(t, i);
        return note("index", (x, is_last(x)));
    }
    let x = T::index_mut(t, i);
    note("index_mut", is_last(x));
    x.touch(&mut d.r);
    note("now", &*x);
}
pub fn asref_str_op<T: AsRef<str>>(t: &T, d: &mut D) {
    let x = t.as_ref();
    note("as_ref", (x, is_last(x)));
}
pub fn asref_slice_op<T: AsRef<[u64]>>(t: &T, d: &mut D) {
    let x = t.as_ref();
    note("as_ref", (x, is_last(x)));
}
pub fn asmut_slice_op<T: AsMut<[u64]>>(t: &mut T, d: &mut D) {
    let x = t.as_mut();
    note("as_mut", is_last(x));
    x.touch(&mut d.r);
    note("now", &*x);
}
pub fn asmut_tgt_op<T: AsMut<Tgt>>(t: &mut T, d: &mut D) {
    let x = t.as_mut();
    note("as_mut", is_last(x));
    x.touch(&mut d.r);
    note("now", &*x);
}
pub fn range_op<T: RangeBounds<u64>>(t: &T, d: &mut D) {
    fn b(b: Bound<&u64>) -> String {
        match b {
            Bound::Unbounded => "..".into(),
            Bound::Included(x) => format!("= {x} {}", is_last(x)),
            Bound::Excluded(x) => format!("! {x} {}", is_last(x)),
        }
    }
    match d.r.n(4) {
        0 => note("start", b(t.start_bound())),
        1 => note("end", b(t.end_bound())),
        2 => note("contains", t.contains(&d.r.n(100))),
        _ => {
            let m: BTreeMap<u64, u64> = (0..d.r.n(30)).map(|x| (x * 3, x)).collect();
            let s = t.start_bound().cloned();
            let e = t.end_bound().cloned();
            note("bounds", (s, e, m.len()));
        }
    }
}
pub fn range_str_op<T: RangeBounds<str>>(t: &T, d: &mut D) {
    match d.r.n(3) {
        0 => note("start", t.start_bound()),
        1 => note("end", t.end_bound()),
        _ => note("contains", t.contains(*d.r.pick(&["a", "m", "zz"]))),
    }
}
impl<const K: u64> FnOnce<(u64,)> for P<K> {
    type Output = u64;
    extern "rust-call" fn call_once(self, a: (u64,)) -> u64 {
        P::c(&self, "call_once", format_args!("{a:?}")).n(1000)
    }
}
impl<const K: u64> FnMut<(u64,)> for P<K> {
    extern "rust-call" fn call_mut(&mut self, a: (u64,)) -> u64 {
        P::c(self, "call_mut", format_args!("{a:?}")).n(1000)
    }
}
impl<const K: u64> Fn<(u64,)> for P<K> {
    extern "rust-call" fn call(&self, a: (u64,)) -> u64 {
        P::c(self, "call", format_args!("{a:?}")).n(1000)
    }
}
/// Arguments that borrow, are not Copy, and decide the type of the result.
impl<'a, const K: u64> FnOnce<(&'a [String],)> for P<K> {
    type Output = Option<&'a String>;
    extern "rust-call" fn call_once(self, a: (&'a [String],)) -> Option<&'a String> {
        let n = P::c(&self, "call_once ref", format_args!("{a:?}")).us(4);
        a.0.get(n)
    }
}
impl<'a, const K: u64> FnMut<(&'a [String],)> for P<K> {
    extern "rust-call" fn call_mut(&mut self, a: (&'a [String],)) -> Option<&'a String> {
        let n = P::c(self, "call_mut ref", format_args!("{a:?}")).us(4);
        a.0.get(n)
    }
}
impl<'a, const K: u64> Fn<(&'a [String],)> for P<K> {
    extern "rust-call" fn call(&self, a: (&'a [String],)) -> Option<&'a String> {
        let n = P::c(self, "call ref", format_args!("{a:?}")).us(4);
        a.0.get(n)
    }
}
impl<const K: u64> FnOnce<(Box<u64>,)> for P<K> {
    type Output = String;
    extern "rust-call" fn call_once(self, a: (Box<u64>,)) -> String {
        P::c(&self, "call_once box", format_args!("{a:?}")).n(99).to_string()
    }
}
impl<const K: u64> FnMut<(Box<u64>,)> for P<K> {
    extern "rust-call" fn call_mut(&mut self, a: (Box<u64>,)) -> String {
        P::c(self, "call_mut box", format_args!("{a:?}")).n(99).to_string()
    }
}
impl<const K: u64> Fn<(Box<u64>,)> for P<K> {
    extern "rust-call" fn call(&self, a: (Box<u64>,)) -> String {
        P::c(self, "call box", format_args!("{a:?}")).n(99).to_string()
    }
}
fn strings(d: &mut D) -> Vec<String> {
    (0..d.r.n(5)).map(|x| format!("s{x}")).collect()
}
pub fn fn_ref_op<T: for<'z> Fn(&'z [String]) -> Option<&'z String> + Fn(Box<u64>) -> String>(t: &mut T, d: &mut D) {
    let t: &T = t;
    if d.r.b(1, 2) {
        let v = strings(d);
        note("call ref", t(&v[..]));
    } else {
        note("call box", t(Box::new(d.r.n(9))));
    }
}
pub fn fnmut_ref_op<T: for<'z> FnMut(&'z [String]) -> Option<&'z String> + FnMut(Box<u64>) -> String>(t: &mut T, d: &mut D) {
    if d.r.b(1, 2) {
        let v = strings(d);
        note("call ref", t(&v[..]));
    } else {
        note("call box", t(Box::new(d.r.n(9))));
    }
}
pub fn fnonce_ref_end<T: for<'z> FnOnce(&'z [String]) -> Option<&'z String>>(t: T, d: &mut D) {
    let v = strings(d);
    note("call_once ref", t(&v[..]))
}
pub fn fnonce_box_end<T: FnOnce(Box<u64>) -> String>(t: T, d: &mut D) {
    note("call_once box", t(Box::new(d.r.n(9))))
}
pub fn fn_op<T: Fn(u64) -> u64>(t: &mut T, d: &mut D) {
    let t: &T = t;
    match d.r.n(3) {
        0 => note("call", t(d.r.n(50))),
        1 => note("map", [1, 2, 3].map(t)),
        _ => {
            let f: &dyn Fn(u64) -> u64 = t;
            note("dyn call", f(d.r.n(50)))
        }
    }
}
pub fn fnmut_op<T: FnMut(u64) -> u64>(t: &mut T, d: &mut D) {
    match d.r.n(2) {
        0 => note("call", t(d.r.n(50))),
        _ => note("map", (0..d.r.n(4)).map(&mut *t).collect::<Vec<_>>()),
    }
}
pub fn fnonce_end<T: FnOnce(u64) -> u64>(t: T, d: &mut D) {
    note("call_once", t(d.r.n(50)))
}
pub fn fn_end<T>(t: T, _: &mut D) {
    drop(t)
}

pub fn gfun(x: u8) -> u8 {
    x
}

/// A payload that logs its drop.
pub struct Pay<const K: u64>(pub u64);
impl<const K: u64> Debug for Pay<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Pay{K}({})", self.0)
    }
}
impl<const K: u64> Drop for Pay<K> {
    fn drop(&mut self) {
        log(format!("drop Pay{K}({})", self.0));
    }
}

// ---- which traits a type has

/// Whether the type of the referenced value implements the bound, asked of the compiler.
#[macro_export]
macro_rules! has {
    ($v:expr, $($b:tt)+) => {{
        struct W<'a, T>(&'a T);
        trait No { fn has(&self) -> bool { false } }
        impl<T> No for &W<'_, T> {}
        #[allow(dead_code)]
        impl<T: $($b)+> W<'_, T> { fn has(&self) -> bool { true } }
        (&W($v)).has()
    }};
}

/// Whether the type implements the bound, as a constant.
#[macro_export]
macro_rules! hast {
    ($t:ty, $($b:tt)+) => {{
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        trait No { const H: bool = false; }
        impl<T: ?Sized> No for W<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> W<T> { const H: bool = true; }
        <W<$t>>::H
    }};
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A plain value that implements many of the supported traits and everything that is ordinarily derived.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Qv<const K: u64>(pub u64);
impl<const K: u64> Iterator for Qv<K> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.0 = self.0.checked_sub(1)?;
        Some(self.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0 as usize, Some(self.0 as usize))
    }
}
impl<const K: u64> DoubleEndedIterator for Qv<K> {
    fn next_back(&mut self) -> Option<u64> {
        self.next()
    }
}
impl<const K: u64> ExactSizeIterator for Qv<K> {}
impl<const K: u64> FusedIterator for Qv<K> {}
impl<const K: u64> Extend<u64> for Qv<K> {
    fn extend<I: IntoIterator<Item = u64>>(&mut self, i: I) {
        self.0 += i.into_iter().sum::<u64>();
    }
}
impl<const K: u64> Future for Qv<K> {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u64> {
        Poll::Ready(self.0)
    }
}
impl<const K: u64> Read for Qv<K> {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        Ok(0)
    }
}
impl<const K: u64> BufRead for Qv<K> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(&[])
    }
    fn consume(&mut self, _: usize) {}
}
impl<const K: u64> Write for Qv<K> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl<const K: u64> Seek for Qv<K> {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        Ok(0)
    }
}
impl<const K: u64> fmt::Write for Qv<K> {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}
impl<const K: u64> fmt::Debug for Qv<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Q{K}:{}", self.0)
    }
}
impl<const K: u64> Display for Qv<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "q{K}:{}", self.0)
    }
}
impl<const K: u64> fmt::LowerHex for Qv<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "x{K}:{}", self.0)
    }
}
impl<const K: u64> std::error::Error for Qv<K> {}
impl<const K: u64> Deref for Qv<K> {
    type Target = u64;
    fn deref(&self) -> &u64 {
        &self.0
    }
}
impl<const K: u64> DerefMut for Qv<K> {
    fn deref_mut(&mut self) -> &mut u64 {
        &mut self.0
    }
}
impl<const K: u64> Index<usize> for Qv<K> {
    type Output = u64;
    fn index(&self, _: usize) -> &u64 {
        &self.0
    }
}
impl<const K: u64> IndexMut<usize> for Qv<K> {
    fn index_mut(&mut self, _: usize) -> &mut u64 {
        &mut self.0
    }
}
impl<const K: u64> AsRef<str> for Qv<K> {
    fn as_ref(&self) -> &str {
        "q"
    }
}
impl<const K: u64> AsMut<[u64]> for Qv<K> {
    fn as_mut(&mut self) -> &mut [u64] {
        std::slice::from_mut(&mut self.0)
    }
}
