// Derive/attribute macros that only record "this type derives trait X":
// they emit an empty impl, so the real expansion is part of the trusted base.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn header(ts: TokenStream) -> (String, String, String, String) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            let s = id.to_string();
            if s == "struct" || s == "enum" || s == "union" {
                break;
            }
        }
        i += 1;
    }
    let name = toks[i + 1].to_string();
    i += 2;
    let mut gen = String::new();
    let mut names: Vec<String> = vec![];
    if let Some(TokenTree::Punct(p)) = toks.get(i) {
        if p.as_char() == '<' {
            let mut depth = 1;
            i += 1;
            let mut start = true;
            let mut life = false;
            while i < toks.len() {
                let t = toks[i].to_string();
                if t == "<" { depth += 1 }
                if t == ">" { depth -= 1; if depth == 0 { i += 1; break } }
                if depth == 1 && start && t != "," && t != "const" {
                    if t == "'" { life = true; gen.push_str("'"); i += 1; continue; }
                    names.push(if life { format!("'{}", t) } else { t.clone() });
                    life = false;
                    start = false;
                }
                if depth == 1 && t == "," { start = true }
                gen.push_str(&t);
                if t != "'" && t != ":" { gen.push(' '); }
                i += 1;
            }
        }
    }
    let mut wh = String::new();
    if let Some(TokenTree::Ident(id)) = toks.get(i) {
        if id.to_string() == "where" {
            while i < toks.len() {
                if let TokenTree::Group(g) = &toks[i] {
                    if g.delimiter() == Delimiter::Brace { break; }
                }
                wh.push_str(&toks[i].to_string());
                wh.push(' ');
                i += 1;
            }
        }
    }
    (name, gen, names.join(","), wh)
}
fn emit(ts: TokenStream, tr: &str, de: bool) -> TokenStream {
    let (n, g, names, wh) = header(ts);
    let g2 = if de { format!("'de, {}", g) } else { g };
    format!("impl<{}> {} for {}<{}> {} {{}}", g2, tr, n, names, wh).parse().unwrap()
}
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(t: TokenStream) -> TokenStream { emit(t, "::serde::Serialize", false) }
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(t: TokenStream) -> TokenStream { emit(t, "::serde::Deserialize<'de>", true) }
#[proc_macro_derive(CanonicalSerialize, attributes(serialize))]
pub fn cser(t: TokenStream) -> TokenStream { emit(t, "::ark_serialize::CanonicalSerialize", false) }
#[proc_macro_derive(CanonicalDeserialize, attributes(serialize))]
pub fn cde(t: TokenStream) -> TokenStream { let mut a = emit(t.clone(), "::ark_serialize::CanonicalDeserialize", false); a.extend(emit(t, "::ark_serialize::Valid", false)); a }
#[proc_macro_derive(Parser, attributes(arg, command, clap, group))]
pub fn parser(t: TokenStream) -> TokenStream { emit(t, "::clap::Parser", false) }
#[proc_macro_derive(Subcommand, attributes(arg, command, clap, group))]
pub fn sub(t: TokenStream) -> TokenStream { emit(t, "::clap::Subcommand", false) }
#[proc_macro_derive(Args, attributes(arg, command, clap, group))]
pub fn cargs(t: TokenStream) -> TokenStream { emit(t, "::clap::Args", false) }
#[proc_macro_derive(ValueEnum, attributes(arg, command, clap, value))]
pub fn venum(t: TokenStream) -> TokenStream { emit(t, "::clap::ValueEnum", false) }
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, t: TokenStream) -> TokenStream { t }
