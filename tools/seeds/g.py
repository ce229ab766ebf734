Z = """mod z {
    use auto_enums::{auto_enum, enum_derive};
    #[auto_enum(Iterator, Debug, Clone)]
    pub fn f(n: u8) -> impl Iterator<Item = u8> { match n { 0 => 0..n, _ => vec![n].into_iter() } }
    #[enum_derive(Debug, Display, Error, Iterator, ExactSizeIterator, DoubleEndedIterator)]
    pub enum E<A, B> { A(A), B(B) }
}
"""
MAIN = Z + "fn main() { assert_eq!(z::f(3).count(), 1); let _ = z::E::<u8, u8>::A(1); let _ = z::E::<u8, u8>::B(1); }\n"
PRE = """mod a {
    #[auto_enums::auto_enum(Iterator)]
    pub fn g(n: u8) -> impl Iterator<Item = u8> { match n { 0 => 0..n, _ => vec![n].into_iter() } }
}
"""
HASH = "    hasher.write(input.to_string().as_bytes());\n"
SEEDS = [
dict(id="c13-random-state", property="C13", needs="expanding the same code twice",
 breaks="the names of generated enums differ from build to build (not reproducible)", cmd="check",
 edits=[("src/auto_enum/context.rs", "    let mut hasher = DefaultHasher::new();\n", "    let mut hasher = std::hash::BuildHasher::build_hasher(&std::collections::hash_map::RandomState::new());\n"),
        ("src/auto_enum/context.rs", "collections::hash_map::DefaultHasher, ", "")],
 main=MAIN, other=""),
dict(id="c13-counter", property="C13", needs="another annotated item before it",
 breaks="the name of a generated enum depends on how many items were expanded before", cmd="check",
 edits=[("src/auto_enum/context.rs", HASH, "    // Identical items get different names.\n    static COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    hasher.write_usize(COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed));\n" + HASH)],
 main=MAIN, other=PRE + MAIN + "fn _g() { a::g(1); }\n"),
dict(id="c13-span", property="C13", needs="the same item further down in the file",
 breaks="the name of a generated enum depends on the item's place in the file", cmd="check",
 edits=[("src/auto_enum/context.rs", HASH, "    hasher.write(format!(\"{:?}\", input).as_bytes());\n")],
 main=MAIN, other="// a comment\n\n" + MAIN),
dict(id="c13-crate-name", property="C13", needs="the same code in another crate or package version",
 breaks="the name of a generated enum depends on the environment of the build", cmd="check",
 edits=[("src/auto_enum/context.rs", HASH, HASH + "    if let Some(dir) = std::env::var_os(\"CARGO_MANIFEST_DIR\") {\n        hasher.write(dir.to_string_lossy().as_bytes());\n    }\n")],
 main=MAIN, other=""),
dict(id="c13-hash-set", property="C13", needs="several traits in one enum_derive",
 breaks="the order of the generated impls differs from build to build", cmd="check",
 edits=[("src/enum_derive.rs", "    let mut derive = vec![];\n", "    let args: std::collections::HashMap<_, _> = args.into_iter().map(|(s, arg)| (s, arg)).collect();\n    let mut derive = vec![];\n")],
 main=MAIN, other=""),
dict(id="c13-short-hash", property="C13", needs="an annotated let within an annotated let of the same name that begins alike, with an outer marker in it",
 breaks="the generated enum of a nested annotation shadows the outer one, which outer markers then refer to",
 edits=[("src/auto_enum/context.rs", HASH, "    // The beginning is enough: the enum is local to its item.\n    for token in input.clone().into_iter().take(4) {\n        hasher.write(token.to_string().as_bytes());\n    }\n")],
 main="""#![feature(stmt_expr_attributes, proc_macro_hygiene)]
use auto_enums::auto_enum;
fn f(n: u8) -> u8 {
    #[auto_enum(Iterator, marker = m)]
    let x = match n {
        0 => 0..1u8,
        _ => m!({
            let k = n + 1;
            #[auto_enum(Iterator)]
            let x = match k { 2 => 0..n, 3 => Some(n).into_iter(), _ => std::iter::once(n) };
            x.map(move |i| i + k)
        }),
    };
    x.sum()
}
fn main() {
    assert_eq!(f(0), 0);
    assert_eq!(f(1), 2);
    let y = || {
        #[auto_enum(Iterator, marker = m)]
        let x = 'a: loop {
            #[auto_enum(Iterator)]
            let x = 'b: loop { if std::env::args().count() > 9 { break 'a m!(Some(1u8).into_iter()); } match 1 { 1 => break 'b 0..3u8, _ => break 'b Some(1).into_iter() } };
            if x.count() == 3 { break 'a m!(vec![1u8, 2].into_iter()); }
            break 'a m!(0..1u8);
        };
        x.sum::<u8>()
    };
    assert_eq!(y(), 3);
}
"""),
]
