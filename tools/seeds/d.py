H = "#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n#![allow(warnings)]\nuse auto_enums::{auto_enum, enum_derive};\n"
FUT = ['futures = { version = "0.3", package = "futures-util", default-features = false, features = ["std", "io", "sink"] }']
SEEDS = [
dict(id="c07-nested-impl", property="C07", features=["type_analysis"], needs="type_analysis with an `impl Trait` nested in another type of the signature",
 breaks="only an `impl Trait` that is the first bound of its list is collected",
 edits=[("src/auto_enum/type_analysis.rs", "for ty in &node.bounds {", "for ty in node.bounds.iter().take(1) {")],
 main=H + """
#[auto_enum]
fn f(n: u32) -> impl Send + ExactSizeIterator<Item = u32> {
    match n { 0 => vec![1, 2].into_iter(), _ => std::iter::once(n) }
}
fn main() { assert_eq!(f(0).len(), 2); assert_eq!(f(9).len(), 1); }
"""),
dict(id="c07-alias-dedup", property="C07", features=["type_analysis"], needs="type_analysis on a let whose type names several traits, one of them already an argument",
 breaks="as soon as one bound of an `impl` is listed as an argument the rest of its bounds are not analysed",
 edits=[("src/auto_enum/type_analysis.rs", """                            self.traits.push(ty);
                        }""", """                            self.traits.push(ty);
                        } else {
                            break;
                        }""")],
 main=H + """
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> + ExactSizeIterator {
    match n { 0 => vec![1, 2].into_iter(), _ => std::iter::once(n) }
}
fn main() { assert_eq!(f(0).len(), 2); assert_eq!(f(9).len(), 1); }
"""),
dict(id="c08-marker-parent", property="C08", needs="a child attribute reusing the custom marker name of its grandparent",
 breaks="a duplicated marker name is only noticed when the immediate parent uses it",
 edits=[("src/auto_enum/context.rs", "if markers.contains(&marker_string) {", "if markers.last() == Some(&marker_string) {")],
 main=H + """
fn main() {
    #[auto_enum(Iterator, marker = a)]
    let x = match 1 { 0 => 0..1, _ => { #[auto_enum(Iterator, marker = b)] let y = match 2 { 0 => 0..2, _ => { #[auto_enum(Iterator, marker = c)] let z = match 2 { 0 => 0..2, _ => std::iter::once(9) }; z } }; y } };
    assert_eq!(x.sum::<i32>(), 9);
}
""", reject=H + """
fn main() {
    #[auto_enum(Iterator, marker = a)]
    let x = match 1 { 0 => 0..1, _ => { #[auto_enum(Iterator, marker = b)] let y = match 2 { 0 => 0..2, _ => { #[auto_enum(Iterator, marker = a)] let z = match 2 { 0 => 0..2, _ => std::iter::once(9) }; z } }; y } };
}
"""),
dict(id="c08-one-variant", property="C08", needs="a function with a single branch that also contains another auto_enum",
 breaks="one branch is accepted if there is another attribute inside",
 edits=[("src/auto_enum/context.rs", "                1 => {}\n", "                1 if !self.has_child => {}\n")],
 main=H + """
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> { #[auto_enum(Iterator)] let y = match n { 0 => 0..2, _ => std::iter::once(9) }; match n { 0 => y, _ => 3..4 } }
fn main() { assert_eq!(f(0).count(), 2); }
""", reject=H + """
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> { #[auto_enum(Iterator)] let y = match n { 0 => 0..2, _ => std::iter::once(9) }; if n > 99 { return y; } panic!() }
fn main() {}
"""),
dict(id="d12-order-dep", property="D12", needs="BufRead listed by its module path with a supertrait not listed",
 breaks="io::BufRead does not bring io::Read along",
 edits=[("src/enum_derive.rs", '"BufRead" | "io::BufRead" => &["Read"],', '"BufRead" => &["Read"],')],
 main=H + """
use std::io::{self, Read, BufRead};
#[enum_derive(io::BufRead)]
enum E<A, B> { A(A), B(B) }
fn main() { let mut e: E<&[u8], io::Empty> = E::A(b"x\\ny"); let mut s = String::new(); e.read_line(&mut s).unwrap(); let mut t = String::new(); e.read_to_string(&mut t).unwrap(); assert_eq!((s.as_str(), t.as_str()), ("x\\n", "y")); }
"""),
dict(id="d12-fn-deps", property="D12", features=["unstable", "fn_traits"], needs="Fn listed alone",
 breaks="Fn implies FnMut but not FnOnce, when FnMut is listed, too",
 edits=[("src/enum_derive.rs", '"FnMut" => &["FnOnce"],', '"FnMut" => &[],')],
 main="#![feature(fn_traits, unboxed_closures)]\n" + """
use auto_enums::enum_derive;
#[enum_derive(FnMut)]
enum E<A, B> { A(A), B(B) }
fn call(mut f: impl FnMut(u8) -> u8) -> u8 { f(1) + f(2) }
fn main() { let a: E<fn(u8) -> u8, fn(u8) -> u8> = E::B(|x| x + 1); assert_eq!(call(a), 5); }
"""),
dict(id="d12-custom-last", property="D12", needs="a derive macro of the user's whose path ends in the name of a supported trait",
 breaks="a path ending in the name of a supported trait is taken for that trait",
 edits=[("src/enum_derive.rs", "match (get_derive(s), arg) {", "let bare = s.strip_prefix(\"std::\").unwrap_or(s);\n        match (get_derive(bare), arg) {")],
 main=H + """
mod std { pub use ::std::prelude::v1 as p; pub mod fmt { pub use ::std::prelude::v1::Clone as Debug; } }
#[enum_derive(std::fmt::Debug)]
enum E { A(u8), B(u16) }
fn main() { let e = E::A(1); let _f = e.clone(); }
"""),
dict(id="d13-async-seek", property="D13", features=["futures03"], deps=FUT, needs="futures03::AsyncSeek alone on an enum, with a Drop implementation or !Unpin field",
 breaks="an enum that only has AsyncSeek is treated as if it never pinned its fields",
 edits=[("src/derive/external/futures03.rs", "    pub(crate) fn derive(cx: &Context, data: &Data) -> Result<TokenStream> {\n        cx.needs_pin_projection();\n\n        let ident", "    pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {\n        let ident", "pub(crate) mod async_seek")],
 main=H + """
#[enum_derive(futures03::AsyncSeek)]
enum E<A, B> { A(A), B(B) }
fn main() {}
""", reject=H + """
#[enum_derive(futures03::AsyncSeek)]
enum E<A, B> { A(A), B(B) }
impl<A, B> Drop for E<A, B> { fn drop(&mut self) {} }
fn main() {}
"""),
dict(id="d13-drop-where", property="D13", needs="a pin-projecting enum with lifetimes or const parameters only and a Drop implementation",
 breaks="Drop is forbidden for enums that have a type parameter only",
 edits=[("src/enum_derive.rs", """        // Ensure that enum does not implement `Drop`.
        // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L147
        items.extend(quote! {""", """        // Ensure that enum does not implement `Drop`.
        // https://github.com/taiki-e/pin-project/blob/v1.1.5/examples/struct-default-expanded.rs#L147
        if item.generics.type_params().next().is_none() { /* nothing to project */ } else { items.extend(quote! {"""),
  ("src/enum_derive.rs", """                impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
            };
        });""", """                impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
            };
        }); }""")],
 main=H + """
#[enum_derive(Future)]
enum E { A(std::future::Ready<u8>), B(std::future::Pending<u8>) }
fn main() {}
""", reject=H + """
#[enum_derive(Future)]
enum E { A(std::future::Ready<u8>), B(std::future::Pending<u8>) }
impl Drop for E { fn drop(&mut self) {} }
fn main() {}
"""),
dict(id="d14-pointer-ops", property="D14", features=["fmt"], no_std=True, needs="fmt::Pointer with `fmt` but without `ops`",
 breaks="fmt::Pointer is handled only if the `ops` feature is on too",
 edits=[("src/enum_derive.rs", """        #[cfg(feature = "fmt")]
        core::fmt::pointer,""", """        #[cfg(all(feature = "fmt", feature = "ops"))]
        core::fmt::pointer,"""),
  ("src/derive/core/fmt.rs", """#[cfg(feature = "fmt")]
derive_fmt!(pointer,""", """#[cfg(all(feature = "fmt", feature = "ops"))]
derive_fmt!(pointer,""")],
 main=H + """
#[enum_derive(fmt::Pointer)]
enum E<A, B> { A(A), B(B) }
fn main() { let x = 0u8; let e: E<&u8, *const u8> = E::A(&x); assert_eq!(format!("{:p}", e), format!("{:p}", &x)); }
"""),
dict(id="d14-core-needs-std", property="D14", no_std=True, needs="Iterator in a no_std crate",
 breaks="size_hint of the enum's Iterator names std::option::Option, so no_std crates do not build",
 edits=[("src/derive/core/iter.rs", "fn size_hint(&self) -> (usize, ::core::option::Option<usize>);", "fn size_hint(&self) -> (usize, ::std::option::Option<usize>);")],
 main="""#![no_std]
extern crate std as s;
#[auto_enums::enum_derive(Iterator)]
pub enum E<A, B> { A(A), B(B) }
fn main() { let e: E<core::ops::Range<u8>, core::iter::Once<u8>> = E::A(0..4); s::assert_eq!(e.count(), 4); }
"""),
dict(id="d15-unpin-where", property="D15", features=[], needs="enum_derive with a pinned trait on an enum with a where clause",
 breaks="a where clause of the enum is taken off the definition and kept on the impls only",
 edits=[("src/enum_derive.rs", "let mut item = item.into_token_stream();", "if cx.needs_pin_projection.get() {\n        item.generics.where_clause = None;\n    }\n    let mut item = item.into_token_stream();")],
 main=H + """
use std::future::{ready, Ready};
#[enum_derive(Future)]
enum E<A, B> where A: Clone { A(A), B(B) }
fn main() { let _e: E<Ready<u8>, Ready<u8>> = E::A(ready(1)); }
""",
 reject=H + """
#[enum_derive(Future)]
enum E<A, B> where A: Clone { A(A), B(B) }
struct NotClone;
fn f(_: E<NotClone, u8>) { }
fn main() { }
"""),
dict(id="d15-attrs-after", property="D15", needs="an attribute below enum_derive together with generics that have defaults",
 breaks="when a parameter has a default, the written default is lost",
 edits=[("src/enum_derive.rs", "let mut item = item.into_token_stream();", "item.generics.params.iter_mut().rev().skip(1).for_each(|p| if let GenericParam::Type(p) = p { p.default = None; });\n    let mut item = item.into_token_stream();")],
 main=H + """
#[enum_derive(Iterator)]
enum E<A = std::ops::Range<u8>, B = std::iter::Once<u8>> { A(A), B(B) }
fn main() { let e: E = E::A(0..4); assert_eq!(e.count(), 4); }
"""),
]
