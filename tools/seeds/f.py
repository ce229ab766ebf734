H = "#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n"
F = """use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u8) -> impl Iterator<Item = u8> { match n { 0 => 0..n, _ => vec![n].into_iter() } }
fn main() { assert_eq!(f(3).count(), 1); }
"""
SEEDS = [
dict(id="c12-error-description", property="C12", needs="deny(deprecated) and an enum deriving Error",
 breaks="the forwarded description() is reported as a use of a deprecated method",
 edits=[("src/derive/std/error.rs", "                #[allow(deprecated)]\n", "")],
 main="""#![deny(deprecated)]
use auto_enums::enum_derive;
#[enum_derive(Debug, Display, Error)]
pub enum E<A, B> { A(A), B(B) }
fn main() { let e: E<std::fmt::Error, std::num::ParseIntError> = E::A(std::fmt::Error); assert_eq!(e.to_string(), std::fmt::Error.to_string()); if false { drop(E::<u8, u8>::B(1)) } }
"""),
dict(id="c12-transpose-docs", property="C12", features=["transpose_methods"], needs="Transpose on a public enum in a crate that denies missing_docs",
 breaks="the generated method is public and undocumented",
 edits=[("src/derive/ty_impls/transpose.rs", "        fn transpose_err(self)", "        pub fn transpose_err(self)")],
 main="""//! Docs.
#![deny(missing_docs)]
mod inner {}
/// An enum.
#[auto_enums::enum_derive(Transpose)]
pub enum E<A, B> {
    /// A
    A(A),
    /// B
    B(B),
}
fn main() { let e: E<Result<u8, u8>, Result<u8, u8>> = E::A(Ok(1)); assert!(matches!(e.transpose_err(), Ok(1))); let _ = inner2::f; }
/// M
pub mod inner2 {
    /// F
    pub fn f() {}
}
"""),
dict(id="c12-swallow", property="C12", needs="an annotated let with something rustc warns about in it",
 breaks="unused warnings inside an annotated let disappear",
 edits=[("src/auto_enum/mod.rs", "            if cx.collect_impl_trait(&mut pat.ty) {\n                local.pat = (*pat.pat).clone();\n            }\n        }\n    }\n\n    if cx.is_dummy() {\n        cx.dummy(local);\n        return;\n    }\n", "            if cx.collect_impl_trait(&mut pat.ty) {\n                local.pat = (*pat.pat).clone();\n            }\n        }\n    }\n\n    if cx.is_dummy() {\n        cx.dummy(local);\n        return;\n    }\n    // The generated block may have redundant braces.\n    local.attrs.push(syn::parse_quote!(#[allow(unused)]));\n")],
 main=H + """#![deny(warnings)]
use auto_enums::auto_enum;
fn main() { #[auto_enum(Iterator)] let x = match 1u8 { 0 => 0..3u8, _ => { let used = 1; vec![used].into_iter() } }; drop(x) }
""", reject=H + """#![deny(warnings)]
use auto_enums::auto_enum;
fn main() { #[auto_enum(Iterator)] let x = match 1u8 { 0 => 0..3u8, _ => { let unused = 1; vec![1u8].into_iter() } }; drop(x) }
"""),
dict(id="c12-try-attrs", property="C12", needs="a statement `#[allow(unused_must_use)] expr?;` in a function whose errors are wrapped",
 breaks="the user's lint attribute on `expr?` is lost",
 edits=[("src/auto_enum/visitor.rs", "                        Expr::Match(ExprMatch {\n                            attrs,", "                        drop(attrs);\n                        Expr::Match(ExprMatch {\n                            attrs: vec![],")],
 main=H + """#![deny(warnings)]
use auto_enums::auto_enum;
#[must_use] pub struct Must;
fn a(n: u8) -> Result<Must, std::fmt::Error> { if n == 1 { Err(std::fmt::Error) } else { Ok(Must) } }
#[auto_enum(Display)]
fn f(n: u8) -> Result<u8, impl std::fmt::Display> { #[allow(unused_must_use)] a(n)?; let x: u8 = "7".parse::<u8>()?; Ok(x) }
fn main() { assert!(matches!(f(2), Ok(7))); assert!(f(1).is_err()); }
"""),
]
