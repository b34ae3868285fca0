//! `#[derive(Debug)]` that writes nothing.  Used only in the verification crate, where the text
//! produced by Debug of reflection metadata is irrelevant (stated as dropped in DESIGN.md).
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(Debug)]
pub fn debug(i: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = i.into_iter().collect();
    let mut k = 0;
    while !matches!(&t[k], TokenTree::Ident(x) if ["struct", "enum", "union"].contains(&x.to_string().as_str())) { k += 1 }
    let name = t[k + 1].to_string();
    k += 2;
    let mut g = String::new();
    if matches!(t.get(k), Some(TokenTree::Punct(p)) if p.as_char() == '<') {
        let mut d = 0i32;
        loop {
            let s = t[k].to_string();
            if s == "<" { d += 1 }
            if s == ">" && !g.trim_end().ends_with('-') { d -= 1 }
            g.push_str(&s);
            let joint = matches!(&t[k], TokenTree::Punct(p) if p.spacing() == proc_macro::Spacing::Joint || p.as_char() == '\'');
            if !joint { g.push(' ') }
            k += 1;
            if d == 0 { break }
        }
    }
    let mut wh = String::new();
    if matches!(t.get(k), Some(TokenTree::Ident(x)) if x.to_string() == "where") {
        while k < t.len() {
            if let TokenTree::Group(gr) = &t[k] { if gr.delimiter() == Delimiter::Brace { break } }
            if t[k].to_string() == ";" { break }
            wh.push_str(&t[k].to_string()); wh.push(' '); k += 1;
        }
    }
    // parameter names only
    let inner = g.trim().trim_start_matches('<').trim_end_matches('>').to_string();
    let mut names = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in inner.chars() {
        match c { '<' | '(' | '[' => depth += 1, '>' | ')' | ']' => depth -= 1, _ => {} }
        if c == ',' && depth == 0 { names.push(cur.clone()); cur.clear() } else { cur.push(c) }
    }
    if !cur.trim().is_empty() { names.push(cur) }
    let args: Vec<String> = names.iter().map(|n| { let h = n.split(':').next().unwrap().split('=').next().unwrap().trim().to_string(); h.trim_start_matches("const ").trim().to_string() }).collect();
    let params: Vec<String> = names.iter().map(|n| n.split(" = ").next().unwrap().to_string()).collect();
    let (p, a) = if args.is_empty() { (String::new(), String::new()) } else { (format!("<{}>", params.join(",")), format!("<{}>", args.join(","))) };
    format!("impl {p} ::core::fmt::Debug for {name} {a} {wh} {{ fn fmt(&self, _f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ Ok(()) }} }}").parse().unwrap()
}
