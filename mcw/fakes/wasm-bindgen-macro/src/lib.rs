//! Stand-in for the attribute of wasm-bindgen: keeps Rust items as they are and turns imported
//! functions into calls to a recorder.

use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let is_extern = toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if i.to_string() == "extern"))
        && matches!(toks.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace)
        && !toks.iter().any(|t| matches!(t, TokenTree::Ident(i) if ["fn", "impl", "struct"].contains(&i.to_string().as_str())));
    if !is_extern {
        return item;
    }
    let Some(TokenTree::Group(body)) = toks.last() else { return item };
    let mut out = TokenStream::new();
    let mut cur: Vec<TokenTree> = vec![];
    let mut inner = body.stream().into_iter().peekable();
    while let Some(t) = inner.next() {
        match &t {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                inner.next(); // The attribute.
            }
            TokenTree::Punct(p) if p.as_char() == ';' => {
                // Names of the parameters: an identifier right before a colon in the parentheses.
                let mut names = vec![];
                if let Some(TokenTree::Group(args)) = cur.iter().find(|t| {
                    matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)
                        && !is_pub_group(&cur, t)
                }) {
                    let a: Vec<TokenTree> = args.stream().into_iter().collect();
                    for w in a.windows(2) {
                        if let (TokenTree::Ident(i), TokenTree::Punct(p)) = (&w[0], &w[1])
                            && p.as_char() == ':'
                        {
                            names.push(i.to_string());
                        }
                    }
                }
                let code = format!(
                    "{{ ::wasm_bindgen::imported(&[{}]); }}",
                    names.iter().map(|n| format!("&format!(\"{{}}\", {n})")).collect::<Vec<_>>().join(", ")
                );
                out.extend(cur.drain(..));
                out.extend(code.parse::<TokenStream>().unwrap());
            }
            _ => cur.push(t),
        }
    }
    let _ = Group::new(Delimiter::None, TokenStream::new());
    out
}

/// Whether `t` is the `(crate)` of a `pub(crate)`.
fn is_pub_group(all: &[TokenTree], t: &TokenTree) -> bool {
    let TokenTree::Group(g) = t else { return false };
    let _ = all;
    matches!(g.stream().to_string().as_str(), "crate" | "super" | "self")
}
