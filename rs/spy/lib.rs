//! Attribute macros that record the tokens they are given, to see what another attribute makes of its input.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
use std::io::Write;

// invisible groups become parentheses, so that the text keeps their structure
fn visible(s: TokenStream) -> TokenStream {
    s.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let d = if g.delimiter() == Delimiter::None { Delimiter::Parenthesis } else { g.delimiter() };
                TokenTree::Group(Group::new(d, visible(g.stream())))
            }
            t => t,
        })
        .collect()
}

fn record(phase: &str, id: TokenStream, input: &TokenStream) {
    let text = visible(input.clone()).to_string().replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r");
    let path = std::env::var("SPY_OUT").unwrap();
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(path).unwrap();
    f.write_all(format!("{}\t{}\t{}\n", id.to_string(), phase, text).as_bytes()).unwrap();
}

/// Records and keeps the annotated code.
#[proc_macro_attribute]
pub fn before(id: TokenStream, input: TokenStream) -> TokenStream {
    record("before", id, &input);
    input
}

/// Records and drops the annotated code.
#[proc_macro_attribute]
pub fn after(id: TokenStream, input: TokenStream) -> TokenStream {
    record("after", id, &input);
    TokenStream::new()
}

/// Records and keeps the annotated code.
#[proc_macro_attribute]
pub fn kept(id: TokenStream, input: TokenStream) -> TokenStream {
    record("after", id, &input);
    input
}

fn derive_input(input: TokenStream) -> TokenStream {
    format!("pub fn derive_input() -> &'static str {{ {:?} }}", visible(input).to_string()).parse().unwrap()
}

/// Makes what the derive macro was given available as a function.
#[proc_macro_derive(Custom, attributes(custom))]
pub fn custom(input: TokenStream) -> TokenStream {
    derive_input(input)
}

#[proc_macro_derive(Read)]
pub fn read(input: TokenStream) -> TokenStream {
    derive_input(input)
}

#[proc_macro_derive(Iterator)]
pub fn iterator(input: TokenStream) -> TokenStream {
    derive_input(input)
}

#[proc_macro_derive(Error)]
pub fn error(input: TokenStream) -> TokenStream {
    derive_input(input)
}

/// Ends the compiler after the given number of further rounds of macro expansion.
#[proc_macro]
pub fn stop(n: TokenStream) -> TokenStream {
    match n.to_string().parse::<u32>().unwrap() {
        0 => std::process::exit(0),
        n => format!("spy::stop!({});", n - 1).parse().unwrap(),
    }
}
