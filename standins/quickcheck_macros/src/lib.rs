//! Stand-in for quickcheck_macros.
extern crate proc_macro;
use proc_macro::*;
#[proc_macro_attribute]
pub fn quickcheck(_: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let f = v.iter().position(|t| t.to_string() == "fn").unwrap();
    let name = v[f + 1].to_string();
    let TokenTree::Group(args) = &v[f + 2] else { panic!() };
    let ret: String = v[f + 3..v.len() - 1].iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
    let (mut types, mut depth, mut colon) = (String::new(), 0, false);
    for t in args.stream() {
        let s = t.to_string();
        match s.as_str() {
            "<" => depth += 1,
            ">" => depth -= 1,
            "," if depth == 0 => { colon = false; types.push(','); continue }
            ":" if depth == 0 && !colon => { colon = true; continue }
            _ => {}
        }
        if colon { types.push_str(&s); types.push(' ') }
    }
    let ret = ret.replace("- >", "->");
    format!("#[test] fn {name}() {{ {item} ::quickcheck::quickcheck({name} as fn({types}) {ret}) }}").parse().unwrap()
}
