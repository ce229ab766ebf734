SEEDS = [
dict(id="c11-async-fn", property="C11", needs="an async fn returning impl Trait that also uses return",
 breaks="return expressions of async functions are not wrapped",
 edits=[("src/auto_enum/mod.rs", "Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {", "Type::ImplTrait(_)\n                if cx.visit_last_mode != VisitLastMode::Never && sig.asyncness.is_none() =>\n            {")],
 main="""
use auto_enums::auto_enum;
use std::{future::Future, pin::pin, task::{Context, Poll, Waker}};
#[auto_enum(Iterator)]
async fn f(n: u32) -> impl Iterator<Item = u32> {
    if n == 7 { return std::iter::once(7); }
    if n % 2 == 0 { 0..n } else { std::iter::empty() }
}
fn run(n: u32) -> Vec<u32> {
    let mut x = pin!(f(n));
    match x.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(i) => i.collect(), Poll::Pending => panic!() }
}
fn main() { assert_eq!(run(7), [7]); assert_eq!(run(2), [0, 1]); assert!(run(1).is_empty()); }
"""),
dict(id="c03-closure-output", property="C03", needs="a closure with a written return type whose ? have different error types",
 breaks="closures with a declared return type are not treated as the body the attribute works on",
 edits=[("src/auto_enum/mod.rs", "Expr::Closure(ExprClosure { body, .. }) if cx.visit_last() => {", "Expr::Closure(ExprClosure { body, output: ReturnType::Default, .. }) if cx.visit_last() => {")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
fn main() {
    #[auto_enum(Debug)]
    let f = |s: &str| -> Result<(), _> {
        let x: u8 = s.parse::<u8>()?;
        std::str::from_utf8(&[x])?;
        Ok(())
    };
    assert!(f("1").is_ok());
    assert!(format!("{:?}", f("x").unwrap_err()).contains("InvalidDigit"));
    assert!(format!("{:?}", f("200").unwrap_err()).contains("Utf8Error"));
}
"""),
dict(id="c11-let-else", property="C11", needs="a let-else statement carrying the attribute",
 breaks="the attribute rejects let-else statements as uninitialised",
 edits=[("src/auto_enum/mod.rs", "let expr = if let Some(LocalInit { expr, .. }) = &mut local.init {", "let expr = if let Some(LocalInit { expr, diverge: None, .. }) = &mut local.init {")],
 main="""
#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
fn f(n: u32) -> Vec<u32> {
    #[auto_enum(Iterator)]
    let (i, true) = (if n > 3 { marker!(0..n) } else { marker!(std::iter::once(n)) }, n != 5) else { return vec![] };
    i.collect()
}
fn main() { assert_eq!(f(4), [0, 1, 2, 3]); assert_eq!(f(2), [2]); assert!(f(5).is_empty()); }
"""),
]
