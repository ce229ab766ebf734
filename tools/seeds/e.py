H = "#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n#![allow(warnings)]\n"
SEEDS = [
dict(id="c10-option", property="C10", needs="an Iterator enum in a module with a type of its own called Option",
 breaks="size_hint's signature names whatever Option is in scope",
 edits=[("src/derive/core/iter.rs", "fn size_hint(&self) -> (usize, ::core::option::Option<usize>);", "fn size_hint(&self) -> (usize, Option<usize>);")],
 main=H + """
mod m {
    pub struct Option(pub u8);
    #[auto_enums::enum_derive(Iterator)]
    pub enum E<A, B> { A(A), B(B) }
}
fn main() { let e: m::E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = m::E::A(0..4); assert_eq!(e.size_hint(), (4, Some(4))); }
"""),
dict(id="c10-try-err", property="C10", needs="`?` in a function whose scope has another Err",
 breaks="the desugared `?` matches on whatever Err is in scope",
 edits=[("src/auto_enum/visitor.rs", "::core::result::Result::Err(err) => {", "Err(err) => {")],
 main=H + """
use auto_enums::auto_enum;
mod m {
    use super::auto_enum;
    #[derive(Debug)]
    pub enum Mine { Err(u8), Fine }
    use Mine::*;
    #[auto_enum(Display)]
    pub fn f(n: u8) -> Result<u8, impl core::fmt::Display> { if n == 1 { "x".parse::<u8>()?; } if n == 2 { "x".parse::<f32>()?; } let _ = Fine; Ok(n) }
}
fn main() { assert!(m::f(1).is_err()); assert!(m::f(2).is_err()); assert!(matches!(m::f(3), Ok(3))); }
"""),
dict(id="c10-generic-f", property="C10", needs="an enum whose own type parameter is called F",
 breaks="the generic parameter of position is called like the enum's",
 edits=[("src/derive/core/iter.rs", "fn position<__P>(&mut self, predicate: __P)", "fn position<F>(&mut self, predicate: F)"), ("src/derive/core/iter.rs", "__P: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> bool;", "F: ::core::ops::FnMut(<Self as ::core::iter::Iterator>::Item) -> bool;")],
 main=H + """
#[auto_enums::enum_derive(Iterator)]
pub enum E<F, G> { A(F), B(G) }
fn main() { let mut e: E<std::ops::Range<u8>, std::vec::IntoIter<u8>> = E::A(0..4); assert_eq!(e.position(|x| x == 2), Some(2)); }
"""),
dict(id="c10-relative-core", property="C10", features=["tokio1"], deps=['tokio = { version = "1" }'], needs="a tokio 1 AsyncBufRead enum in a module that has a module called core of its own",
 breaks="consume's Pin is looked up from the scope's core",
 edits=[("src/derive/external/tokio1.rs", "let pin = quote!(::core::pin::Pin);", "let pin = quote!(core::pin::Pin);", "mod async_buf_read")],
 main=H + """
mod m {
    mod core { pub fn f() {} }
    #[auto_enums::enum_derive(tokio1::AsyncRead, tokio1::AsyncBufRead)]
    pub enum E<A, B> { A(A), B(B) }
}
use tokio::io::AsyncBufRead;
fn main() { let mut e: m::E<&[u8], std::io::Cursor<&[u8]>> = m::E::A(b"abc"); std::pin::Pin::new(&mut e).consume(1); match e { m::E::A(x) => assert_eq!(x, b"bc"), _ => panic!() } }
"""),
]
