//! Print token streams with line breaks after `{`, `}` and `;`, and fill in contract marks.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub fn tokens(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts.clone(), &mut s, 1);
    s
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') { s.pop(); }
    s.push('\n');
    for _ in 0..ind { s.push_str("    "); }
}

fn go(ts: TokenStream, s: &mut String, ind: usize) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let n = toks.len();
    for (i, t) in toks.into_iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    s.push('{');
                    if g.stream().is_empty() { s.push_str("} "); continue; }
                    nl(s, ind);
                    go(g.stream(), s, ind + 1);
                    nl(s, ind.saturating_sub(1));
                    s.push('}');
                    if i + 1 < n { s.push(' '); }
                    // a statement block: break the line
                    nl(s, ind.saturating_sub(1));
                }
                Delimiter::Parenthesis => { s.push('('); go(g.stream(), s, ind); while s.ends_with(' ') { s.pop(); } s.push_str(") "); }
                Delimiter::Bracket => { s.push('['); go(g.stream(), s, ind); while s.ends_with(' ') { s.pop(); } s.push_str("] "); }
                Delimiter::None => go(g.stream(), s, ind),
            },
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' { nl(s, ind.saturating_sub(1)); }
                else if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            t => { s.push_str(&t.to_string()); s.push(' '); }
        }
    }
}

/// Replace identifiers `__VXn__` by the recorded texts.
pub fn fill_marks(s: &str, marks: &BTreeMap<String, String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find("__VX") {
        out.push_str(&rest[..p]);
        let tail = &rest[p..];
        let e = tail[4..].find("__").map(|e| e + 6).unwrap_or(tail.len());
        let key = &tail[..e];
        match marks.get(key) {
            Some(t) => { out.push('\n'); out.push_str(t); out.push('\n'); }
            None => out.push_str(key),
        }
        rest = &tail[e..];
    }
    out.push_str(rest);
    out
}
