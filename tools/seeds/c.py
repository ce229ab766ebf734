SEEDS = [
dict(id="c09-attr-order", property="C09", needs="an annotation followed by two or more other attributes on one expression, arm or let",
 breaks="removing #[never], #[nested] or #[auto_enum] reorders the other attributes of that node",
 edits=[("src/utils.rs", "self.iter().position(predicate).map(|i| self.remove(i))", "self.iter().position(predicate).map(|i| self.swap_remove(i))")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    match n {
        0 => 0..3,
        1 => std::iter::once(1),
        #[never]
        #[deny(unused_variables)]
        #[warn(deprecated)]
        #[allow(unused_variables)]
        _ => { let x = 1; panic!() }
    }
}
fn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(1).count(), 1); }
"""),
dict(id="c09-marker-attrs", property="C09", needs="a marker macro that carries an attribute of its own",
 breaks="attributes written on a marker macro are dropped",
 edits=[("src/auto_enum/visitor.rs", "self.cx.next_expr_with_attrs(expr.attrs, args)", "self.cx.next_expr(args)")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
#![deny(unused_variables)]
use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u32) -> impl Iterator<Item = u32> {
    let x = if n == 0 { #[allow(unused_variables)] marker!({ let x = 1; 0..n }) } else { marker!(std::iter::once(n)) };
    x
}
fn main() { assert_eq!(f(0).count(), 0); assert_eq!(f(1).count(), 1); }
"""),
dict(id="c09-variant-index", property="C09", needs="more than 32 branches in one enum",
 breaks="the 33rd and later branches reuse the names of earlier variants",
 edits=[("src/auto_enum/context.rs", 'format_ident!("__Variant{}", self.variants.len())', 'format_ident!("__Variant{}", self.variants.len() % 32)')],
 main="""
use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(n: u32) -> impl std::fmt::Debug {
    match n { """ + " ".join("%d => %du8," % (i, i) if i % 2 else "%d => \"%d\"," % (i, i) for i in range(40)) + """ _ => () }
}
fn main() { assert_eq!(format!("{:?}{:?}{:?}", f(1), f(34), f(99)), "1\\"34\\"()"); }
"""),
]
