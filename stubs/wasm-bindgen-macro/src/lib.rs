//! Stand-in for the `#[wasm_bindgen]` attribute: leaves the Rust item exactly as written
//! (no JS glue), stripping nested `#[wasm_bindgen(..)]` helper attributes.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(input: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut iter = input.into_iter().peekable();
    while let Some(tt) = iter.next() {
        match tt {
            TokenTree::Punct(ref p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = iter.peek() {
                    if g.delimiter() == Delimiter::Bracket {
                        let first = g.stream().into_iter().next();
                        if let Some(TokenTree::Ident(id)) = first {
                            if id.to_string() == "wasm_bindgen" {
                                iter.next();
                                continue;
                            }
                        }
                    }
                }
                out.push(tt);
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), strip(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
