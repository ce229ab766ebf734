FUT = ['futures = { version = "0.3", package = "futures-util", default-features = false, features = ["std", "io", "sink"] }']
SEEDS = [
dict(id="c01-nested-loop-restore", property="C01", needs="a labelled loop whose inner labelled or unlabelled loop contains a further loop, and an unlabelled break of the inner loop after that one",
 breaks="after an inner-inner loop the visitor forgets that it is still inside an inner loop and wraps that loop's own unlabelled break",
 edits=[("src/auto_enum/expr.rs", "            let tmp = self.nested;\n            match node {", "            let tmp = self.nested && !matches!(node, Expr::Loop(_) | Expr::While(_));\n            match node {")],
 main="""
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    let mut c = 0;
    'a: loop {
        c += 1;
        let k = loop {
            let mut j = 0;
            loop { j += 1; if j > n { break; } }
            break j;
        };
        if c > 3 { break 'a std::iter::once(k); }
        if k > 2 { break 0..k; }
        if n == 1 { break std::iter::empty(); }
    }
}
fn main() { assert_eq!(f(0).collect::<Vec<_>>(), [1]); assert_eq!(f(2).collect::<Vec<_>>(), [0, 1, 2]); assert_eq!(f(1).count(), 0); }
"""),
dict(id="c02-bare-return", property="C02", needs="a `return;` without a value in a function whose impl Trait is implemented by ()",
 breaks="a return without a value is not wrapped as a variant holding ()",
 edits=[("src/auto_enum/visitor.rs", "                if expr.as_ref().map_or(true, |expr| !self.cx.is_marker_expr(expr)) {\n                    self.cx.replace_boxed_expr(expr);",
         "                if expr.as_ref().map_or(false, |expr| !self.cx.is_marker_expr(expr)) {\n                    self.cx.replace_boxed_expr(expr);")],
 main="""
use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(n: u32) -> impl std::fmt::Debug {
    if n == 0 { return; }
    if n == 1 { "one" } else { n }
}
fn main() { assert_eq!(format!("{:?}", f(0)), "()"); assert_eq!(format!("{:?}", f(1)), "\\"one\\""); assert_eq!(format!("{:?}", f(2)), "2"); }
"""),
dict(id="c03-try-block", property="C03", needs="a ? inside a try block of a function whose other ? are collected",
 breaks="a ? inside a try block leaves the function instead of the try block",
 edits=[("src/auto_enum/visitor.rs", "if !self.scope.try_block && !self.scope.closure && !node.any_empty_attr(NEVER) {", "if !self.scope.closure && !node.any_empty_attr(NEVER) {")],
 main="""
#![feature(try_blocks)]
use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(a: &str) -> Result<i64, impl std::fmt::Debug> {
    let k: Result<i64, std::num::ParseIntError> = try { "x".parse::<i64>()? + 1 };
    let x: i64 = a.parse::<i64>()?;
    let y = u8::try_from(x)?;
    Ok(y as i64 + k.unwrap_or(100))
}
fn main() { assert_eq!(f("2").ok(), Some(102)); assert!(format!("{:?}", f("700").unwrap_err()).contains("TryFromIntError")); }
"""),
dict(id="c04-item-end", property="C04", needs="a branch block whose last statement is an item, after a diverging statement",
 breaks="a branch ending in an item definition is wrapped although it diverges",
 edits=[("src/auto_enum/expr.rs", "        Some(Stmt::Item(_)) => true,\n", "        Some(Stmt::Item(_)) => false,\n")],
 main="""
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    if n == 0 {
        return 0..3;
        #[allow(dead_code)]
        fn helper() {}
    } else if n == 1 { std::iter::empty() } else { std::iter::once(n) }
}
fn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).count(), 0); assert_eq!(f(2).count(), 1); }
"""),
dict(id="c05-path-marker", property="C05", needs="another macro called marker used through a path inside the scope of an auto_enum",
 breaks="path-qualified macros whose last segment is `marker` are taken for the marker",
 edits=[("src/auto_enum/context.rs", "        mac.path.is_ident(&self.current_marker)", "        mac.path.segments.last().map_or(false, |s| s.ident == self.current_marker)")],
 main="""
use auto_enums::auto_enum;
mod m { macro_rules! marker_ { ($e:expr) => { $e + 100 } } pub(crate) use marker_ as marker; }
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    let k: u32 = m::marker!(n);
    match n { 0 => std::iter::empty(), 1 => std::iter::once(k), _ => k..k + 2 }
}
fn main() { assert_eq!(f(1).collect::<Vec<_>>(), [101]); assert_eq!(f(2).collect::<Vec<_>>(), [102, 103]); assert_eq!(f(0).count(), 0); }
"""),
dict(id="c06-scope-leak", property="C06", needs="a let with its own #[auto_enum] followed by a #[nested] or marker branch of the outer attribute in the same body",
 breaks="after a let statement with its own attribute the rest of the body is treated as foreign",
 edits=[("src/auto_enum/visitor.rs", "                VisitStmt::visit_stmt(self, node);\n\n                self.scope = tmp;\n", "                VisitStmt::visit_stmt(self, node);\n\n                self.scope = Scope { foreign: self.scope.foreign && !matches!(node, Stmt::Item(_)), ..tmp };\n")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    #[auto_enum(Debug)]
    let d = match n { 0 => "x", 1 => 1u8, _ => 'c' };
    let _ = format!("{:?}", d);
    match n {
        0 => std::iter::empty(),
        1 => marker!(std::iter::once(n)),
        _ => 0..n,
    }
}
fn main() { assert_eq!(f(1).collect::<Vec<_>>(), [1]); assert_eq!(f(2).collect::<Vec<_>>(), [0, 1]); }
"""),
dict(id="c06-closure-scope", property="C06", needs="an attribute on a closure expression inside another attribute's body, with markers or #[never] of its own",
 breaks="a closure expression with its own attribute is not treated as foreign, so the outer attribute takes its markers",
 edits=[("src/auto_enum/visitor.rs", "        if node.any_attr(NAME) {\n            self.scope.foreign = true;\n            // Record whether other `auto_enum` attribute exists.\n            self.cx.has_child = true;\n        }\n        self.scope.check_expr(node);",
   "        if node.any_attr(NAME) {\n            self.scope.foreign |= !matches!(node, Expr::Closure(_));\n            // Record whether other `auto_enum` attribute exists.\n            self.cx.has_child = true;\n        }\n        self.scope.check_expr(node);")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
fn show(f: impl Fn(u32) -> String) -> String { f(0) + &f(1) }
fn id<T>(t: T) -> T { t }
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    let c = id(#[auto_enum(Debug)] |q: u32| { if q == 0 { marker!("x") } else { marker!(q) } });
    let s = show(|q| format!("{:?}", c(q)));
    assert_eq!(s, "\\"x\\"1");
    if n == 0 { std::iter::empty() } else { std::iter::once(n) }
}
fn main() { assert_eq!(f(1).collect::<Vec<_>>(), [1]); assert_eq!(f(0).count(), 0); }
"""),
dict(id="d01-count", property="D01", needs="count called on an enum over iterators that override it",
 breaks="count is no longer forwarded, so the enum steps through the held iterator instead",
 edits=[("src/derive/core/iter.rs", "                #[inline]\n                fn count(self) -> usize;\n", "")],
 main="""
use auto_enums::enum_derive;
struct I(u32);
impl Iterator for I { type Item = u32; fn next(&mut self) -> Option<u32> { panic!("stepped") } fn count(self) -> usize { self.0 as usize } }
#[enum_derive(Iterator)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let e: E<I, std::ops::Range<u32>> = E::A(I(3)); assert_eq!(e.count(), 3); }
"""),
dict(id="d02-future-waker", property="D02", needs="a future that stores the waker it is polled with and compares it with the caller's",
 breaks="the held future is polled with a waker of its own instead of the caller's context",
 edits=[("src/derive/core/future.rs", "<#ty as #trait_>::poll(#pin::new_unchecked(x), cx),", "<#ty as #trait_>::poll(#pin::new_unchecked(x), &mut ::core::task::Context::from_waker(::core::task::Waker::noop())),")],
 main="""
use auto_enums::enum_derive;
use std::{future::Future, pin::Pin, sync::{Arc, atomic::{AtomicUsize, Ordering}}, task::{Context, Poll, Wake, Waker}};
struct W(AtomicUsize);
impl Wake for W { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
struct F(u8);
impl Future for F { type Output = u8; fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u8> { if self.0 == 0 { Poll::Ready(7) } else { self.0 -= 1; cx.waker().wake_by_ref(); Poll::Pending } } }
#[enum_derive(Future)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() {
    let w = Arc::new(W(AtomicUsize::new(0))); let waker = Waker::from(w.clone()); let mut cx = Context::from_waker(&waker);
    let mut e: E<F, std::future::Ready<u8>> = E::A(F(1));
    assert!(Pin::new(&mut e).poll(&mut cx).is_pending());
    assert_eq!(w.0.load(Ordering::SeqCst), 1);
    assert_eq!(Pin::new(&mut e).poll(&mut cx), Poll::Ready(7));
}
"""),
dict(id="d03-read-until", property="D03", needs="read_until on an enum over readers that override it",
 breaks="read_until is not forwarded any more, the default loop over fill_buf/consume runs instead",
 edits=[("src/derive/std/io.rs", """                #[inline]
                fn read_until(
                    &mut self,
                    byte: u8, buf: &mut ::std::vec::Vec<u8>,
                ) -> ::std::io::Result<usize>;
""", "")],
 main="""
use auto_enums::enum_derive;
use std::io::{self, BufRead, Read};
struct R;
impl Read for R { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl BufRead for R { fn fill_buf(&mut self) -> io::Result<&[u8]> { Ok(b"") } fn consume(&mut self, _: usize) {} fn read_until(&mut self, b: u8, buf: &mut Vec<u8>) -> io::Result<usize> { buf.push(b); Ok(77) } }
#[enum_derive(Read, BufRead)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let mut e: E<R, io::Empty> = E::A(R); let mut v = vec![]; assert_eq!(e.read_until(9, &mut v).unwrap(), 77); assert_eq!(v, [9]); }
"""),
dict(id="d04-write-char", property="D04", needs="write_char on an enum over writers that override it",
 breaks="fmt::Write::write_char goes through write_str of the held writer",
 edits=[("src/derive/core/fmt.rs", "                #[inline]\n                fn write_char(&mut self, c: char) -> ::core::fmt::Result;\n", "")],
 main="""
use auto_enums::enum_derive;
use std::fmt::{self, Write};
#[derive(Default)] struct W(String);
impl Write for W { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.push_str(s); Ok(()) } fn write_char(&mut self, c: char) -> fmt::Result { self.0.push('<'); self.0.push(c); self.0.push('>'); Ok(()) } }
#[enum_derive(fmt::Write)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let mut e: E<W, String> = E::A(W::default()); e.write_char('x').unwrap(); match e { E::A(w) => assert_eq!(w.0, "<x>"), _ => panic!() } }
"""),
dict(id="d05-source-skip", property="D05", needs="a held error that has a source of its own",
 breaks="source() of the enum skips the held error when that error has a source",
 edits=[("src/derive/std/error.rs", "quote!(#ident::#v(x) => ::std::option::Option::Some(x)));", "quote!(#ident::#v(x) => ::std::error::Error::source(x).or(::std::option::Option::Some(x))));")],
 main="""
use auto_enums::enum_derive;
use std::{error::Error, fmt};
#[derive(Debug)] struct In; impl fmt::Display for In { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("in") } } impl Error for In {}
#[derive(Debug)] struct Out(In); impl fmt::Display for Out { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("out") } } impl Error for Out { fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&self.0) } }
#[enum_derive(Error)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let e: E<Out, In> = E::A(Out(In)); let s = e.source().unwrap(); assert!(s.is::<Out>()); assert!(s.source().unwrap().is::<In>()); }
"""),
dict(id="d06-index-range", property="D06", features=["ops"], needs="indexing mutably with an index that is not Copy, such as a range",
 breaks="the enum's IndexMut only covers indices that are Copy",
 edits=[("src/derive/core/ops.rs", "trait IndexMut<__Idx>: ::core::ops::Index<__Idx> {", "trait IndexMut<__Idx: ::core::marker::Copy>: ::core::ops::Index<__Idx> {")],
 main="""
use auto_enums::enum_derive;
#[enum_derive(Index, IndexMut)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let mut e: E<Vec<u8>, [u8; 2]> = E::A(vec![1, 2]); e[1..].reverse(); e[0..1][0] = 9; match e { E::A(v) => assert_eq!(v, [9, 2]), _ => panic!() } }
"""),
dict(id="d07-generic-e0", property="D07", features=["transpose_methods"], needs="an enum whose own generic parameter is called E0",
 breaks="the error parameters of transpose are called E0, E1, .. and clash with the enum's own",
 edits=[("src/derive/ty_impls/transpose.rs", 'format_ident!("__E{}", i)', 'format_ident!("E{}", i)')],
 main="""
use auto_enums::enum_derive;
#[enum_derive(Transpose)]
enum En<E0, E1> { A(E0), #[allow(dead_code)] B(E1) }
fn main() { let e: En<Result<u8, String>, Result<u16, char>> = En::A(Ok(3)); match e.transpose() { Ok(En::A(3)) => {} _ => panic!() } }
"""),
dict(id="d08-flush-close", property="D08", features=["futures03"], deps=FUT, needs="poll_flush or poll_close of a futures 0.3 writer",
 breaks="closing a writer only flushes the held writer",
 edits=[("src/derive/external/futures03.rs", "<#ty as #trait_>::poll_close(#pin::new_unchecked(x), cx),", "<#ty as #trait_>::poll_flush(#pin::new_unchecked(x), cx),", "pub(crate) mod async_write")],
 main="""
use auto_enums::enum_derive;
use std::{io, pin::Pin, task::{Context, Poll, Waker}};
use futures::io::AsyncWrite;
struct W(Vec<&'static str>);
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.push("flush"); Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.0.push("close"); Poll::Ready(Ok(())) }
}
#[enum_derive(futures03::AsyncWrite)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let mut e: E<W, W> = E::A(W(vec![])); let mut cx = Context::from_waker(Waker::noop()); let _ = Pin::new(&mut e).poll_close(&mut cx); match e { E::A(w) => assert_eq!(w.0, ["close"]), _ => panic!() } }
"""),
dict(id="d09-vectored", property="D09", features=["tokio1"], deps=['tokio = { version = "1", default-features = false }'], needs="is_write_vectored of a tokio 1 writer that supports vectored writes",
 breaks="the enum says that it does not support vectored writes whatever it holds",
 edits=[("src/derive/external/tokio1.rs", "fn is_write_vectored(&self) -> bool;", "")],
 main="""
use auto_enums::enum_derive;
use std::{io, pin::Pin, task::{Context, Poll}};
use tokio::io::AsyncWrite;
struct W;
impl AsyncWrite for W {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn is_write_vectored(&self) -> bool { true }
}
#[enum_derive(tokio1::AsyncWrite)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let e: E<W, W> = E::A(W); assert!(e.is_write_vectored()); }
"""),
dict(id="d10-opt-len", property="D10", features=["rayon"], deps=['rayon = "1"'], needs="opt_len of a parallel iterator of known length behind the enum",
 breaks="the enum forgets that the held parallel iterator knows its length",
 edits=[("src/derive/external/rayon.rs", "                #[inline]\n                fn opt_len(&self) -> ::core::option::Option<usize>;\n", "")],
 main="""
use auto_enums::enum_derive;
use rayon::iter::{IntoParallelIterator, ParallelIterator};
#[enum_derive(rayon::ParallelIterator)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let e: E<rayon::range::Iter<u32>, rayon::iter::Empty<u32>> = E::A((0..5u32).into_par_iter()); assert_eq!(e.opt_len(), Some(5)); }
"""),
dict(id="d11-end-stream", property="D11", features=["http_body1"], deps=['http_body = { version = "1", package = "http-body" }', 'bytes = "1"'], needs="is_end_stream of a body that is at its end before being polled",
 breaks="the enum never reports the end of the held body early",
 edits=[("src/derive/external/http_body1.rs", "                #[inline]\n                fn is_end_stream(&self) -> bool;\n", "")],
 main="""
use auto_enums::enum_derive;
use std::{pin::Pin, task::{Context, Poll}};
use http_body::{Body, Frame};
struct B0;
impl Body for B0 { type Data = bytes::Bytes; type Error = (); fn poll_frame(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Result<Frame<bytes::Bytes>, ()>>> { Poll::Ready(None) } fn is_end_stream(&self) -> bool { true } }
#[enum_derive(http_body1::Body)]
enum E<A, B> { A(A), #[allow(dead_code)] B(B) }
fn main() { let e: E<B0, B0> = E::A(B0); assert!(e.is_end_stream()); }
"""),
]
