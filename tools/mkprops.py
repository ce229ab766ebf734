#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts are reviewable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

EX = "src/auto_enum/expr.rs"; VI = "src/auto_enum/visitor.rs"; CX = "src/auto_enum/context.rs"; MO = "src/auto_enum/mod.rs"
UT = "src/utils.rs"; TA = "src/auto_enum/type_analysis.rs"; ED = "src/enum_derive.rs"

prop("C01", "auto_enum keeps the meaning of branching tail expressions",
 "A function whose tail expression branches into values of different types (match arms, if/else-if/else and if-let chains, every break of a loop, including labelled breaks out of inner loops, reached through any nesting of blocks, unsafe blocks, parentheses and method-call receivers) compiles under #[auto_enum(Trait)] and behaves exactly like the same function with every branch value boxed as dyn Trait: same value observed through the trait, same side effects in the same order, same panics. Every branch contributes one wrapped value, and inner conditionals, inner loops and closures that are not branches of the tail expression are left alone.",
 ["programs", "inputs"], "every function built from the documented tail-expression forms, over every control-flow path through it",
 "The repository's tests fix about forty hand-written shapes and a few inputs each; compositions (a labelled break in a while inside a match arm of a block under a method call) are unbounded and unsampled.",
 [EX, VI, CX, UT], [("recursive descent over the tail expression", EX + " child_expr, visit_last_expr_match/if/loop"), ("fresh variant per branch", CX + " Builder::next_expr"), ("loop label comparison and nesting stop", EX + " LoopVisitor")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C02", "auto_enum wraps exactly the return expressions of its own function or closure",
 "In a function returning impl Trait, or a closure carrying the attribute, a `return value` at any position (nested blocks, loops, let-else, call arguments, conditions, operands) yields that value through the trait exactly as if it were boxed, whatever mix of types the returns and the tail have. A `return` that belongs to another body - a closure, an async block or a nested item - keeps its own meaning and is never wrapped.",
 ["programs", "inputs"], "every placement of return statements among the statements and sub-expressions of a function or closure body",
 "Tests contain returns in if-blocks and one or two closures; they do not place returns in operands, let-else, async blocks or nested items.",
 [VI, MO, EX], [("VisitMode::Return selected from the signature", MO + " expand_parent_item_fn, expand_expr"), ("scope tracking that stops at closures", VI + " Scope::check_expr, visit_return"), ("return counting", VI + " visit_fn")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C03", "auto_enum carries every ? error out as the matching variant",
 "In a function returning Result<T, impl Trait> (also written std::result::Result or core::result::Result), or a closure carrying the attribute, that uses ? on results with two or more error types, each ? either yields the Ok value or returns immediately with Err of that very error value observed through the trait, exactly as if each error were boxed; evaluation order and Ok values are unchanged. A ? inside a nested closure, async block, try block or nested item keeps its own meaning.",
 ["programs", "inputs"], "every placement of two or more ? operators in statements, operands, chained method calls and loops, and every pattern of Ok/Err outcomes",
 "Tests use two or three ? in straight-line code with a couple of inputs; error routing for arbitrary nesting and outcome patterns is not sampled.",
 [VI, MO], [("VisitMode::Try selection", MO + " expand_parent_item_fn, expand_expr"), ("desugaring of expr?", VI + " visit_try"), ("counting", VI + " visit_fn")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C04", "diverging, #[never] and #[nested] branches are handled as documented",
 "A branch that ends in panic!, unreachable! (also by their std:: or core:: path), return, break, continue, None?, Err(..)?, an item definition, or a block, match, let, parenthesis or method call that itself ends so, or that is annotated #[never], gets no variant: the program compiles and diverges there exactly like the reference. A branch annotated #[nested], on an arm, an expression or a let binding, contributes its inner branches to the same enum at any depth, and the annotations leave no trace in the compiled code.",
 ["programs", "inputs"], "every combination of diverging forms and annotations over branching tail expressions, to any nesting depth",
 "Tests exercise each diverging form in one or two positions; combinations and nesting depth are open-ended.",
 [EX, VI, UT], [("is_unreachable / is_unreachable_stmt / is_unreachable_macro", EX), ("skip predicates and find_nested", EX + ", " + VI), ("attribute removal", VI + " find_remove_attrs"), ("path_eq on std/core paths", UT)],
 ["compile and run the annotated function next to its boxed reference"])

prop("C05", "marker macros wrap exactly the marked expression, under the chosen name",
 "Each marker!(value) - or name!(value) when marker = name is given, with any of the three bracket kinds - in the scope of an #[auto_enum], at any expression position, denotes that value as one more variant of that attribute's enum and is itself never wrapped again as a branch; every other macro, including a user macro called marker while another name is in force, keeps its meaning. With nested attributes using different names each marker belongs to the attribute whose name it carries.",
 ["programs", "inputs"], "every placement of markers in expressions and statements, every choice of marker names over nested attributes",
 "Tests contain a handful of markers in branch position; arbitrary expression positions, bracket kinds and shadowed names are not covered.",
 [VI, CX, EX], [("marker recognition", CX + " is_marker_macro, is_marker_macro_exact, is_marker_expr"), ("replacement", VI + " visit_marker_macro"), ("marker scoping over nested attributes", CX + " make_child/join_child")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C06", "several auto_enum attributes in one body do not interfere",
 "When one function carries several #[auto_enum] attributes - an empty one on the function with others on lets, statements, closures and expressions inside it, or one inside a branch of another - each branch and marker belongs to the innermost enclosing attribute only, each let or expression gets exactly the traits listed on its own attribute, and the function behaves like the reference in which all of them are boxed separately. Statement-level attributes ending in a semicolon wrap only what is marked.",
 ["programs", "inputs"], "every arrangement of nested and sibling attributes with equal or different trait lists and identical or different annotated code",
 "Tests contain two attributes in a body at most a few times; interaction between siblings, identical annotated code, and three levels of nesting is not tested.",
 [VI, CX, MO], [("foreign scope flag", VI + " Scope.foreign"), ("child contexts", CX + " make_child, join_child"), ("dummy visitor", VI + " Dummy"), ("enum naming by input hash", CX + " hash")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C07", "type_analysis finds the same traits that could be written by hand",
 "With the type_analysis feature, #[auto_enum] without arguments on a function whose return type, or a let whose type, mentions impl Trait1 + Trait2 + .. for supported standard traits behaves as if exactly those traits had been listed, in any combination and order, alone or together with explicitly listed traits, with associated-type bindings, lifetimes and auto traits among the bounds; a let keeps its binding pattern and mutability. Without any impl Trait to analyse, or on a function with a single value that needs no enum, the attribute changes nothing.",
 ["programs", "configurations"], "every combination of supported trait bounds and positions of the impl Trait in a return type or let type",
 "tests/type_analysis.rs has three functions using Iterator alone.",
 [TA, MO, ED], [("trait collection from the type", TA + " collect_impl_trait, TRAITS"), ("let type removal", MO + " expand_parent_local"), ("dummy fallback", MO + " expand_expr, expand_parent_item_fn")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C08", "misuse is answered with a compile error, never a panic or silent acceptance",
 "For every syntactically valid item, statement or expression and every argument token list, both attribute macros terminate without panicking and either expand or report a compile error located in the annotated code. Inputs the documentation rules out - fewer than two branches, a missing else, an uninitialised let, an empty function, a non-function item, arguments on #[never] or #[nested], the removed #[rec], malformed arguments, a second `marker` argument, a marker name already in use in an enclosing attribute, enums with explicit discriminants or with unit, named-field, multi-field or no variants, structs and unions, Transpose on non-generic fields - are always reported as errors.",
 ["inputs", "programs"], "every argument token sequence and every syntactic form rustc can pass to the attributes",
 "tests/ui has some thirty fixed misuses (and is not among the tests that run here); arbitrary arguments and syntax, including syntax the parser library does not model, are not sampled.",
 [CX, MO, VI, EX, ED, "src/error.rs", UT], [("error accumulation and check()", CX), ("Args parsers", CX + ", " + ED), ("bail!/format_err!", "src/error.rs")],
 ["run rustc over generated uses and read its diagnostics"])

prop("C09", "expansion is transparent: only wrappers, one enum and the annotations differ",
 "For any annotated function, removing from the expansion the generated enum and the variant constructors around wrapped values gives back the annotated code unchanged except for the removed annotations and markers: no statement, expression, attribute, generic parameter, visibility, where clause or macro call is dropped, duplicated or reordered, and each wrapped value has its own variant. An empty #[auto_enum] with nothing inside it gives back its input unchanged.",
 ["programs"], "every syntactically valid function, statement or expression containing any Rust syntax in its statements and operands",
 "Snapshot tests cover enum_derive output only; no test looks at what auto_enum does to the rest of the body.",
 [VI, EX, MO, UT, CX], [("in-place syntax tree rewriting", VI + ", " + EX), ("replace_expr/replace_block", UT), ("build", CX + ", " + MO + " build_expr")],
 ["a second attribute macro placed after #[auto_enum] receives the expansion"])

prop("C10", "generated code is immune to the names in use around it",
 "What the attributes generate means the same whatever names the use site defines: items, modules, types, traits, functions, macros or variables named like those of the prelude, of core, std, alloc or the traits' crates, a missing implicit prelude, or traits in scope with competing methods never change which code runs nor break the build. The same holds for the enum's own name, its variants' (say Item or Output) and its type parameters' names, except for parameters starting with two underscores. (Names of constants and of primitive types are not covered.)",
 ["programs", "configurations"], "every supported trait and every auto_enum form used inside scopes that redefine any subset of the names the expansion could refer to",
 "All tests run with the ordinary prelude and with variants and parameters called A, B, ..; none shadows a name used by the expansion.",
 ["src/derive/core/iter.rs", "src/derive/core/fmt.rs", "src/derive/core/future.rs", "src/derive/core/ops.rs", "src/derive/core/convert.rs", "src/derive/std/io.rs", "src/derive/std/error.rs", "src/derive/ty_impls/transpose.rs", "src/derive/external/futures03.rs", "src/derive/external/rayon.rs", VI, CX, ED], [("absolute ::core / ::std / ::crate paths", "src/derive/**"), ("fully qualified calls", "src/derive/external/*"), ("prefixed generic names", "src/derive/**"), ("associated types qualified by their trait", "src/derive/**")],
 ["compile and run in hostile modules"])

prop("C11", "where the attribute is placed does not change what the code does",
 "The same branching code gives the same results whether #[auto_enum] sits on the function, on the tail expression, on a let binding, on a closure or its let, or on a method, and whatever the function's own features are: self receivers, lifetimes, generics, const generics, where clauses, visibility, unsafe, extern or async qualifiers, doc comments and other attributes, and patterns in parameters and let bindings.",
 ["programs", "inputs"], "every documented attribute position combined with every function-signature feature",
 "Tests use free functions with one integer parameter, and a few methods and closures.",
 [MO, VI, CX], [("dispatch on statement / expression / item", MO + " attribute, expand_parent_stmt"), ("enum insertion into the block", MO + " build_expr, expand_parent_item_fn")],
 ["compile and run the annotated function next to its boxed reference"])

prop("C12", "the attributes add no warnings and hide none of the user's own",
 "Whatever lints are turned on (as warnings or denied, short of `forbid`), the compiler warns about nothing in a program with #[auto_enum] or #[enum_derive] that it would not warn about in the same program written without the attribute: the generated enum, impls, wrappers and desugared `?` cause none, also when the enum, a variant or a field type is deprecated. Warnings that rustc gives by default about the user's own code in an annotated function (unused variables, values, labels, assignments, deprecated uses, unreachable or dead code, naming) are still given, at the same place; only warnings about redundant parentheses and braces may disappear.",
 ["programs", "configurations"], "every body, enum definition and combination of lints, although a build with deny(warnings) turns any stray warning into an error",
 "Tests allow warnings or only compare the expansion; none looks at which warnings are given or where.",
 ["src/utils.rs", "src/enum_derive.rs", CX, VI], [("delimiters of moved expressions", "src/utils.rs replace_block, respan_delimiters"), ("lint attributes on the generated enum and impls", CX + " Builder::build; src/derive/std/error.rs")],
 ["read rustc's diagnostics as JSON for the code with and without the attribute, all lints on"])

prop("C13", "an expansion depends on nothing but the annotated code",
 "What an item annotated with #[auto_enum] or #[enum_derive] expands to depends only on its own tokens, including the attribute's arguments: not on the process or build, on what was expanded before it, on its place in the file, module, function or crate, nor on comments and the width of white space, so builds are reproducible and an edit elsewhere changes nothing. Equal items may stand beside each other, and no generated enum is ever defined in the scope of another generated enum with the same name, to which outer markers would then refer wrongly.",
 ["programs", "histories"], "every annotated item and everything that may stand around it or be expanded before it",
 "Tests expand each item once, in one place; the names and the order of what is generated are only compared for a few inputs, in tests that do not run here.",
 [CX, "src/auto_enum/type_analysis.rs", ED], [("name of the generated enum", CX + " Builder::new, hash"), ("order of generated impls and derives", ED + " expand"), ("collected traits", "src/auto_enum/type_analysis.rs collect_impl_trait")],
 ["rustc -Zunpretty=expanded on several files that contain the same items"])

prop("D01", "iterator enums behave exactly like the iterator they hold",
 "For an enum with #[enum_derive] of Iterator, DoubleEndedIterator, ExactSizeIterator, FusedIterator, TrustedLen or Extend, every call of next, size_hint, count, last, nth, collect, partition, fold, all, any, find, find_map, position, next_back, nth_back, rfold, rfind, len or extend on the enum invokes exactly that method of the held value once with the same arguments and returns its result, so an implementation the inner type provides is the one that runs; every other iterator method gives the result it gives on the held value. This holds for any interleaving of calls, any number of variants and any generic shape of the enum.",
 ["inputs", "histories"], "every call sequence, on every variant, of every enum shape",
 "Run-time tests only use next and collect on two or three variants; which inner method is invoked is never observed.",
 ["src/derive/core/iter.rs", ED], [("derive_trait forwarding", "src/derive/core/iter.rs")],
 ["instrumented inner iterators that log every method call"])

prop("D02", "future and coroutine enums poll the held value in place",
 "Polling an enum with #[enum_derive(Future)] or resuming one with #[enum_derive(Coroutine)] polls or resumes the held value exactly once with the same context or argument and returns its answer, and the held value is pinned: across all calls between construction-and-pinning and drop it is observed at one address and is never moved, replaced or dropped early, also for values that are not Unpin.",
 ["histories", "inputs"], "every sequence of polls with any pending/ready pattern, any waker, on every variant of every enum shape",
 "Tests only check that futures compile; address stability, context identity and drop counts are not observed.",
 ["src/derive/core/future.rs", "src/derive/core/ops.rs", ED], [("pin projection through get_unchecked_mut/new_unchecked", "src/derive/core/future.rs")],
 ["instrumented !Unpin futures that record addresses, wakers, polls and drops"])

prop("D03", "std::io enums forward every I/O call",
 "For an enum deriving Read, BufRead, Write or Seek (also spelt io::Read etc.), each of read, read_vectored, read_to_end, read_to_string, read_exact, fill_buf, consume, read_until, read_line, write, write_vectored, flush, write_all, write_fmt and seek reaches exactly that method of the held value once with the same buffers and arguments, and returns its value or error unchanged, including partial reads and writes, interruptions and errors.",
 ["histories", "fault_sequences"], "every sequence of I/O calls and every sequence of partial results and errors from the held value",
 "Tests only compile such enums; no call sequence or fault is exercised.",
 ["src/derive/std/io.rs"], [("derive_trait forwarding", "src/derive/std/io.rs")], ["instrumented inner readers/writers"])

prop("D04", "formatting an enum is formatting the held value",
 "For every fmt trait (Debug, Display, Binary, Octal, LowerHex, UpperHex, LowerExp, UpperExp, Pointer, fmt::Write) formatting the enum under any format specification gives exactly the text, the error and the formatter flags that the held value gives under the same specification with the same trait - no variant name is ever printed - and write_str, write_char and write_fmt reach exactly those methods of the held writer.",
 ["inputs"], "every format specification (width, precision, fill, alignment, flags), every value and every variant",
 "Tests format a few values with {:?} only; mixing up two fmt traits or losing formatter flags is not observable there.",
 ["src/derive/core/fmt.rs"], [("derive_fmt forwarding", "src/derive/core/fmt.rs")], ["instrumented inner values that print trait name and all formatter flags"])

prop("D05", "an error enum reports the held error as its source",
 "For an enum deriving Error, Display and Debug output and description() are those of the held error, source() is always Some of the held error itself (the same object, which can be downcast to its type and whose own source chain continues from there), and Display and Debug are supplied when not listed. The enum can be boxed as dyn Error and walked with the usual source loop, one link longer than the held error's chain.",
 ["inputs", "programs"], "every variant, every error value and chain length, every way of listing Error with its dependencies",
 "One compile-only test derives Error; source() is never called.",
 ["src/derive/std/error.rs", ED], [("source implementation", "src/derive/std/error.rs"), ("dependency insertion", ED + " get_trait_deps")], ["generated error chains"])

prop("D06", "operator, conversion and callable enums delegate to the held value",
 "For enums deriving Deref, DerefMut, Index, IndexMut, RangeBounds, AsRef, AsMut, Fn, FnMut or FnOnce, the result of each operation is the held value's own result: references returned point into the held value, mutations through them are seen by it, both bounds of a range are those of the held range, and calls pass the argument and return the result of the held callable through the matching call method.",
 ["inputs", "histories"], "every sequence of operations with every argument on every variant and enum shape",
 "Tests only compile these derives with one or two variants; confusing start with end bound, or shared with exclusive access, is not observable.",
 ["src/derive/core/ops.rs", "src/derive/core/convert.rs"], [("derive_trait forwarding", "src/derive/core/ops.rs, convert.rs"), ("manual Fn* impls", "src/derive/core/ops.rs")], ["instrumented inner values"])

prop("D07", "transpose methods move the enum inside without changing variant or payload",
 "For an enum deriving Transpose, transpose on options gives None iff the held option is None and otherwise Some of the same variant holding the same payload; transpose, transpose_ok and transpose_err on results give Ok or Err exactly as the held result does, re-wrapping the Ok and/or Err payload in the same variant and leaving an unwrapped side as the identical value. This holds for every variant, any number of variants and any payload types.",
 ["inputs", "programs"], "every variant, Some/None/Ok/Err outcome and payload, for every number of variants",
 "Tests call transpose in a few two- or three-variant enums and do not check which variant comes out.",
 ["src/derive/ty_impls/transpose.rs"], [("generated inherent methods", "src/derive/ty_impls/transpose.rs")], ["match on the resulting variant"])

prop("D08", "futures 0.3 and 0.1 enums forward every call",
 "For enums deriving futures03::Stream, Sink, AsyncRead, AsyncWrite, AsyncSeek or AsyncBufRead, or futures01::Future, Stream or Sink, each trait method (including size_hint, the vectored variants, start_send, flush and close) reaches exactly that method of the held value once, pinned in place where the trait pins, with the same context, item and buffers, and returns its answer unchanged.",
 ["histories", "fault_sequences"], "every sequence of calls and every pattern of pending, ready and error answers on every variant",
 "Run-pass tests only compile the derives; swapping poll_flush and poll_close would pass every stable test.",
 ["src/derive/external/futures03.rs", "src/derive/external/futures01.rs", ED], [("hand-written pinned forwarding", "src/derive/external/futures03.rs"), ("derive_trait forwarding", "src/derive/external/futures01.rs")], ["instrumented inner values"])

prop("D09", "tokio 1, 0.3, 0.2 and 0.1 I/O enums forward every call",
 "For enums deriving AsyncRead, AsyncWrite, AsyncSeek or AsyncBufRead of tokio1, tokio03, tokio02 or tokio01, each trait method that every release of the respective version defines without buffer-trait generics (including shutdown, the vectored writes of tokio 1, prepare_uninitialized_buffer, start_seek and poll_complete) reaches exactly that method of the held value once, pinned in place where the trait pins, with the same context, buffers and arguments, and returns its answer unchanged.",
 ["histories", "fault_sequences"], "every sequence of calls and every pattern of pending, ready and error answers on every variant",
 "Run-pass tests only compile the derives; swapping poll_flush and poll_shutdown would pass every stable test.",
 ["src/derive/external/tokio1.rs", "src/derive/external/tokio03.rs", "src/derive/external/tokio02.rs", "src/derive/external/tokio01.rs", ED], [("hand-written pinned forwarding", "src/derive/external/tokio*.rs")], ["instrumented inner values"])

prop("D10", "rayon enums run the held parallel iterator",
 "For enums deriving rayon::ParallelIterator, rayon::IndexedParallelIterator or rayon::ParallelExtend, driving the enum, in any splitting and on any number of threads, gives what driving the held value gives: drive_unindexed, opt_len, drive, len, with_producer and par_extend each reach exactly that method of the held value, and any adaptor chain produces the same items in the same order.",
 ["inputs", "schedules"], "every item list, adaptor chain, split and variant",
 "One compile-only test and one doc example; results and call routing are never checked.",
 ["src/derive/external/rayon.rs", ED], [("derive_trait forwarding", "src/derive/external/rayon.rs")], ["instrumented inner parallel iterators"])

prop("D11", "serde and http-body enums are transparent",
 "Serialising an enum deriving serde::Serialize makes exactly the serializer calls, with the result or error, that serialising the held value makes - no enum or variant layer appears in the output. An enum deriving http_body1::Body yields the held body's frames, errors, end-of-stream flag and size hint call for call, pinned in place.",
 ["inputs", "histories"], "every serialisable value and serializer, every frame/error/pending pattern, on every variant",
 "Compile-only tests; no serializer output or frame is ever compared.",
 ["src/derive/external/serde.rs", "src/derive/external/http_body1.rs"], [("derive_trait forwarding", "src/derive/external/serde.rs"), ("hand-written pinned forwarding", "src/derive/external/http_body1.rs")], ["recording serializer; instrumented bodies"])

prop("D12", "the trait list is a set: order, aliases and implied traits do not matter",
 "Any list of distinct supported traits in any order and any spelling (plain or module-prefixed alias, trailing comma) compiles and implements exactly the listed traits plus, for the core, std and rayon traits, the supported traits they depend on, each once, whether or not those are listed too and even if one is written in both spellings; traits that the attribute does not support itself are handed to #[derive], which applies them with their ordinary derive meaning.",
 ["configurations", "inputs"], "every subset and permutation of the supported and standard derivable traits with every alias choice",
 "Tests list one to four traits in a fixed order.",
 [ED, "src/derive/core/mod.rs", "src/derive/std/mod.rs"], [("dependency and alias folding", ED + " get_trait_deps, exists_alias, expand"), ("name table", ED + " get_derive, NAME constants"), ("passthrough to derive", ED + " expand")],
 ["compile generated lists and query implemented traits"])

prop("D13", "pin-projecting enums stay sound: conditional Unpin, no Drop",
 "An enum deriving any trait whose methods take a pinned self is Unpin if and only if all its fields are, a user-written Unpin or Drop implementation for it is rejected at compile time, and enums deriving only other traits keep the automatic Unpin and, unless a trait takes self by value, may implement Drop. This holds for every such trait, whatever else is listed and whatever the enum's generics.",
 ["programs", "configurations"], "every pinning trait, combination with other traits, enum shape and field Unpin-ness",
 "tests/ui has one case each for Future (and is not among the tests that run here); the other pinning traits and generic shapes are not covered.",
 [ED, "src/derive/core/future.rs", "src/derive/core/ops.rs", "src/derive/external/futures03.rs", "src/derive/external/tokio1.rs", "src/derive/external/tokio03.rs", "src/derive/external/tokio02.rs", "src/derive/external/http_body1.rs"], [("needs_pin_projection flag", ED), ("generated Unpin impl and MustNotImplDrop", ED + " expand")],
 ["compile-pass / compile-fail of generated programs"])

prop("D14", "features switch exactly their own traits, and default code stays no_std",
 "Each cargo feature combination builds, and enables exactly the traits documented for its features (the unstable ones only together with `unstable`): with a trait's feature on, the attribute implements it as for D01-D11; with it off, the name is not handled by the attribute but handed to #[derive] (and so rejected there), and no other trait's behaviour changes. With std and the external-library features off the attributes work in a #![no_std] crate, and traits documented as core ones never need std even when it is on.",
 ["configurations"], "every subset of the crate's features crossed with every trait name",
 "The stable tests run with two feature sets: default and all.",
 ["Cargo.toml", ED, "src/derive/mod.rs", "src/derive/core/mod.rs", "src/derive/std/mod.rs", "src/derive/external/mod.rs", "src/derive/ty_impls/mod.rs", "src/lib.rs"], [("cfg(feature) on modules and table entries", ED + " get_derive, get_trait_deps, exists_alias"), ("absolute ::core paths", "src/derive/core/*")],
 ["build the crate under sampled feature sets and compile probe programs"])

prop("D15", "the annotated enum itself is preserved",
 "#[enum_derive] leaves the enum definition as written - name, visibility, attributes, doc comments, variant names and order, field types, generics with their bounds and defaults, lifetimes, const parameters and where clauses - and the generated impls apply to exactly the instantiations whose fields implement the trait (with the associated types of all fields equal to the first field's). Enums of one to many variants, with repeated, borrowed, nested generic or projected field types, are all accepted when each field mentions a type parameter of the enum, and with concrete field types too for traits without type parameters of their own.",
 ["programs"], "every enum shape accepted by rustc whose variants hold one value each",
 "Tests use enums with one to three plain generic variants.",
 [ED, "src/derive/core/iter.rs", "src/derive/core/ops.rs"], [("EnumData parsing and re-emission", ED + " expand"), ("where-clause generation", "derive_utils via src/derive/**")],
 ["compile generated enums and query them"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
