//! C01: annotation, error HTML.
use crate::generate::*;
use math_core::{LatexToMathML, MathCoreConfig, MathDisplay};
use wlib::Ctx;

fn content(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), c => o.push(c) } } o }
fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        let Some(e) = r[i..].find(';') else { return Err(format!("`&` without `;` in {s:?}")) };
        o.push(match &r[i + 1..i + e] { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', x => return Err(format!("reference &{x}; in {s:?}")) });
        r = &r[i + e + 1..];
    }
    o.push_str(r);
    Ok(o)
}
fn check_content(emb: &str, orig: &str, what: &str) -> Result<(), String> {
    if emb.contains('<') || emb.contains('>') { return Err(format!("{what}: raw `<` or `>` in {emb:?}")); }
    if decode(emb)? != orig { return Err(format!("{what}: {emb:?} decodes to {:?} instead of {orig:?}", decode(emb)?)); }
    if emb != content(orig) { return Err(format!("{what}: {emb:?} is not the escaped form of {orig:?}")); }
    Ok(())
}
fn wild(r: &mut wlib::Rng) -> String {
    let n = r.below(24);
    (0..n).map(|_| match r.below(8) {
        0 => "&".into(), 1 => "<".into(), 2 => ">".into(), 3 => "\"".into(),
        4 => r.pick(&["&amp;", "&lt", "&#38;", "]]>", "'", "&&", "<!--", "</code>", ";", "\\", "é", "日本", "\u{10ffff}", "ß", "\u{7f}", "\t", "👍"]).to_string(),
        5 => char::from_u32(r.below(0xd800) as u32).unwrap().to_string(),
        _ => char::from(r.range(32, 126) as u8).to_string(),
    }).collect()
}
fn check_html(e: &math_core::LatexError, src: &str, d: MathDisplay, cls: Option<&str>) -> Result<(), String> {
    let h = e.to_html(src, d, cls);
    let tag = if d == MathDisplay::Block { "p" } else { "span" };
    let pre = format!("<{tag} class=\"{}\" title=\"", cls.unwrap_or("math-core-error"));
    let post = format!("</code></{tag}>");
    let Some(body) = h.strip_prefix(&pre).and_then(|b| b.strip_suffix(&post)) else { return Err(format!("to_html: unexpected frame {h:?}")) };
    let Some((title, code)) = body.split_once("\"><code>") else { return Err(format!("to_html: no code part in {h:?}")) };
    if title.contains('"') { return Err(format!("raw quote in title {title:?}")); }
    let mut msg = String::new();
    e.to_message(&mut msg, src);
    if decode(title)? != msg { return Err(format!("title {title:?} decodes to {:?}, the message is {msg:?}", decode(title)?)); }
    let want: String = msg.chars().map(|c| match c { '&' => "&amp;".into(), '"' => "&quot;".into(), c => c.to_string() }).collect();
    if title != want { return Err(format!("title {title:?} is not the escaped message {msg:?}")); }
    check_content(code, src, "code text")
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "sources with markup characters, references and arbitrary Unicode in comments and text; every error of random inputs; macro names with arbitrary text; compared with an independent escaper and decoder".into();
    let ann = conv(MathCoreConfig { annotation: true, ..Default::default() });
    let annp = conv(MathCoreConfig { annotation: true, pretty_print: math_core::PrettyPrint::Always, ..Default::default() });
    // every short combination of special and other characters first
    let alpha = ["&", "<", ">", "\"", "a", "é", ";"];
    for n in 0..=4usize {
        for k in 0..alpha.len().pow(n as u32) {
            let mut k = k;
            let mut s = String::from("x%");
            for _ in 0..n { s.push_str(alpha[k % alpha.len()]); k /= alpha.len(); }
            one(ctx, &ann, &s);
            one(ctx, &ann, &format!("}}%{}", &s[2..]));
            if ctx.failing() { return; }
        }
    }
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let s = match r.below(6) {
            0 => format!("x%{}\ny", wild(&mut r).replace('\n', " ")),
            1 => format!("\\text{{{}}}", wild(&mut r)),
            2 => wild(&mut r),
            3 => format!("{}%{}", any_input(&mut r), wild(&mut r)),
            4 => format!("\\begin{{{}}}", wild(&mut r)),
            _ => any_input(&mut r),
        };
        one(ctx, if r.chance(1, 4) { &annp } else { &ann }, &s);
        if r.chance(1, 8) {
            let name = wild(&mut r);
            let src = wild(&mut r);
            ctx.case(&format!("macro named {name:?}, error shown for source {src:?}"), || {
                match LatexToMathML::new(MathCoreConfig { macros: vec![(name.clone(), src.clone())], ..Default::default() }) {
                    Ok(_) => Ok(()),
                    Err((e, _, def)) => {
                        if def != src { return Err(format!("definition given back as {def:?}")); }
                        check_html(&e, &src, MathDisplay::Block, None)?;
                        check_html(&e, &src, MathDisplay::Inline, Some("k"))
                    }
                }
            });
        }
    }
}
fn one(ctx: &mut Ctx, l: &LatexToMathML, s: &str) {
    for d in [MathDisplay::Block, MathDisplay::Inline] {
        ctx.case(s, || match go(l, s, d) {
            Ok(m) => {
                let open = "<annotation encoding=\"application/x-tex\">";
                let Some(i) = m.find(open) else { return Err("no annotation element".into()) };
                let rest = &m[i + open.len()..];
                let Some(j) = rest.find("</annotation>") else { return Err("annotation element not closed".into()) };
                if rest[j..].contains("<annotation") || !rest[j + 13..].trim_start().starts_with("</semantics>") { return Err(format!("text after the annotation: {:?}", &rest[j..])); }
                check_content(&rest[..j], s, "annotation")
            }
            Err(e) => { check_html(&e, s, d, None)?; check_html(&e, s, d, Some("my-class")) }
        });
    }
}
