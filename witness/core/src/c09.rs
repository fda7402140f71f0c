//! C09 (core part): error ranges are valid and lie in the source; the printed position counts characters.
use crate::generate::*;
use math_core::{LatexToMathML, MathDisplay};
use wlib::{Ctx, Rng};

fn check(e: &math_core::LatexError, src: &str, multibyte: bool) -> Result<(), String> {
    let (a, b) = (e.0.start, e.0.end);
    if a > b { return Err(format!("range {a}..{b} is reversed ({})", e.error_message())); }
    if b > src.len() { return Err(format!("range {a}..{b} ends after the input of {} bytes ({})", src.len(), e.error_message())); }
    if !src.is_char_boundary(a) || !src.is_char_boundary(b) { return Err(format!("range {a}..{b} is not on character boundaries ({})", e.error_message())); }
    let mut m = String::new();
    e.to_message(&mut m, src);
    let want = format!("{}: {}", src[..a].chars().count(), e.error_message());
    if m != want { return Err(format!("message {m:?} instead of {want:?}")); }
    let _ = multibyte;
    Ok(())
}
fn noise(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { o.push(c); if r.chance(1, 8) { o.push_str(r.pick(&["é", "日", "%é\n", "\u{10ffff}", " ", "α", "\n", "\u{2003}"])); } }
    o
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "failing inputs (soup, truncated formulas, macros, comments, multi-byte text); every returned range is checked against the source, and known errors placed behind random prefixes must be located there".into();
    let l = conv(math_core::MathCoreConfig::default());
    // known errors: where they are is known from the input
    let known: [(&str, usize, usize); 14] = [("\\undefinedx", 0, 11), ("\\hspace{1qq}", 8, 11), ("\\begin{nope}", 7, 11), ("#", 0, 1), ("\\right)", 0, 6), ("}", 0, 1), ("$", 0, 1), ("\\color{nocolor}", 7, 14),
        ("\\begin{array}{q}x\\end{array}", 14, 15), ("\\begin{matrix}a\\end{array}", 15, 26), ("\\undefinedé", 0, 10), ("\\tag{x}", 0, 4), ("\\label{x}", 0, 6), ("\\middle x", 8, 9)];
    for (k, (e, a, b)) in known.iter().enumerate() {
        for pre in ["", "x", "é", "日本", "a b%c é\n ", "{\\frac12}α", "\\text{é}", "\\def\\q#1{#1é}\\q é"] {
            let s = format!("{pre}{e}");
            ctx.case(&s, || match go(&l, &s, MathDisplay::Block) {
                Ok(_) => if k == 7 && false { Ok(()) } else { Err("this input has an error".into()) },
                Err(x) => {
                    check(&x, &s, true)?;
                    let want = (pre.len() + a, pre.len() + b);
                    // (give or take the braces around an argument)
                    let near = |x: usize, y: usize| x.abs_diff(y) <= 1;
                    if !near(x.0.start, want.0) || !near(x.0.end, want.1) { return Err(format!("located at {:?} instead of {want:?} ({})", x.0, x.error_message())); }
                    Ok(())
                }
            });
        }
    }
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let (c, d) = config_named(&mut r);
        let defs = c.macros.clone();
        let Ok(l) = LatexToMathML::new(c) else { continue };
        for _ in 0..30 {
            let mut s = any_input(&mut r);
            if r.chance(1, 2) { s = noise(&mut r, &s); }
            if r.chance(1, 3) { let n = s.chars().count(); let k = r.below(n + 1); s = s.chars().take(k).collect(); }
            if r.chance(1, 4) { s = format!("\\def\\q#1{{{}}}\\q{{{}}}é", s, soup(&mut r, 2)); }
            let dm = display(&mut r);
            ctx.case(&format!("{s}\n  [{d} {dm:?}]"), || match go(&l, &s, dm) { Ok(_) => Ok(()), Err(e) => check(&e, &s, true) });
        }
        let _ = defs;
        let def = { let n = 1 + r.below(5); let t = soup(&mut r, n); noise(&mut r, &t) };
        ctx.case(&format!("macro body {def:?}"), || match LatexToMathML::new(math_core::MathCoreConfig { macros: vec![("m".into(), def.clone())], ..Default::default() }) {
            Ok(_) => Ok(()),
            Err((e, _, d)) => check(&e, &d, true),
        });
    }
}
