//! `#[wasm_bindgen]` without the bindings: the item itself, inner `#[wasm_bindgen(..)]` removed.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn strip(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(ref p) if p.as_char() == '#' => {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let own = g.delimiter() == Delimiter::Bracket
                        && matches!(g.stream().into_iter().next(), Some(TokenTree::Ident(i)) if i.to_string() == "wasm_bindgen");
                    if own {
                        it.next();
                        continue;
                    }
                }
                out.push(t);
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
