//! Stand-in for the paste crate: `[<a b>]` becomes the identifier `ab`.
extern crate proc_macro;
use proc_macro::*;
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream {
    go(i)
}
fn go(i: TokenStream) -> TokenStream {
    i.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                let v: Vec<_> = g.stream().into_iter().collect();
                let is = |t: Option<&TokenTree>, c| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
                if g.delimiter() == Delimiter::Bracket && v.len() > 2 && is(v.first(), '<') && is(v.last(), '>') {
                    let s: String = v[1..v.len() - 1].iter().map(|t| t.to_string()).collect();
                    TokenTree::Ident(Ident::new(&s, v[1].span()))
                } else {
                    let mut n = Group::new(g.delimiter(), go(g.stream()));
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
            }
            t => t,
        })
        .collect()
}
