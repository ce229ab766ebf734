H = "#![feature(stmt_expr_attributes, proc_macro_hygiene)]\n"
SEEDS = [
dict(id="c09-bare-expr", property="C09", needs="the bare attribute on a branching expression",
 breaks="an attribute without arguments wraps the branches of the expression in an enum without traits",
 edits=[("src/auto_enum/mod.rs", "        cx.dummy(expr);\n        return;\n    }\n\n    expand_expr(cx, expr);\n\n    cx.build", "        cx.dummy(expr);\n    }\n\n    expand_expr(cx, expr);\n\n    cx.build")],
 main=H + """use auto_enums::auto_enum;
fn main() { let n = std::env::args().count() as u8; let x: u8 = #[auto_enum] match n { 1 => 3u8, _ => 2 }; assert_eq!(x, 3); }
"""),
dict(id="c06-nested-child", property="C06", needs="a branch of an outer attribute with an annotated expression that has #[nested] in it",
 breaks="#[nested] of an inner attribute is taken for one of the outer attribute, whose branch is not wrapped",
 edits=[("src/auto_enum/visitor.rs", "            if !node.any_attr(NAME) {\n                if node.any_empty_attr(NESTED) {\n                    self.has = true;\n                } else {\n                    visit_mut::visit_expr_mut", "            if !node.any_empty_attr(NAME) {\n                if node.any_empty_attr(NESTED) {\n                    self.has = true;\n                } else {\n                    visit_mut::visit_expr_mut")],
 main=H + """use auto_enums::auto_enum;
#[auto_enum(Iterator)]
fn f(n: u8) -> impl Iterator<Item = u8> {
    match n {
        0 => 0..3u8,
        _ => {
            let c = (#[auto_enum(Iterator)] match n { 1 => Some(1u8).into_iter(), _ => { #[nested] match n { 2 => vec![1u8, 2].into_iter(), _ => std::iter::once(4) } } }).sum::<u8>();
            vec![c].into_iter()
        }
    }
}
fn main() { assert_eq!(f(0).count(), 3); assert_eq!(f(2).sum::<u8>(), 3); }
"""),
dict(id="c08-never-args", property="C08", needs="#[never] with arguments",
 breaks="a malformed #[never(..)] is removed without an error",
 edits=[("src/auto_enum/visitor.rs", "                if let Err(e) = attr.meta.require_path_only() {\n                    self.cx.error(e);\n                }\n            }\n", "                let _ = attr.meta.require_path_only();\n            }\n")],
 main=H + """use auto_enums::auto_enum;
fn main() { #[auto_enum(Iterator)] let x = match 1u8 { 0 => 0..3u8, 1 => Some(1).into_iter(), #[never] _ => std::process::exit(1) }; assert_eq!(x.count(), 1); }
""", reject=H + """use auto_enums::auto_enum;
fn main() { #[auto_enum(Iterator)] let x = match 1u8 { 0 => 0..3u8, 1 => Some(1).into_iter(), #[never(really)] 3 => std::process::exit(1), _ => Some(2).into_iter() }; drop(x); }
"""),
dict(id="c01-if-unreachable", property="C01", needs="an if branch that ends in a statement and diverges only by its type",
 breaks="an if branch without a tail expression is taken for a diverging one",
 edits=[("src/auto_enum/expr.rs", "            _ => is_unreachable_stmt(cx, block.stmts.last()),\n        }\n    }\n\n    if !skip", "            _ => true,\n        }\n    }\n\n    if !skip")],
 main=H + """use auto_enums::auto_enum;
fn main() { #[auto_enum(Debug)] let x = if std::env::args().count() > 5 { println!("many"); } else { 3u8 }; assert_eq!(format!("{:?}", x), "3"); }
"""),
dict(id="c02-async-scope", property="C02", needs="return inside an async block of an annotated function",
 breaks="return in async blocks is wrapped as if it were the function's",
 edits=[("src/auto_enum/visitor.rs", "            Expr::Closure(_) | Expr::Async(_) => self.closure = true,", "            Expr::Closure(_) => self.closure = true,\n            Expr::Async(block) if block.capture.is_none() => self.closure = true,")],
 main=H + """use auto_enums::auto_enum;
#[auto_enum(Debug)]
fn f(n: u8) -> impl std::fmt::Debug {
    let fut = async move { if n == 1 { return 5u8; } 6 };
    drop(fut);
    if n == 0 { return 1u8; }
    if n == 1 { return 'c'; }
    match n { 2 => "s", _ => return 2u64 }
}
fn main() { assert_eq!(format!("{:?} {:?}", f(0), f(2)), "1 \\"s\\""); }
"""),
]
