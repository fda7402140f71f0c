//! C19: no input makes the conversion or the error formatting panic, read out of bounds or hang.
use crate::generate::*;
use math_core::{LatexToMathML, MathDisplay};
use wlib::Ctx;

fn one(l: &mut LatexToMathML, s: &str, d: MathDisplay, global: bool) -> Result<(), String> {
    let r = if global { l.convert_with_global_state(s, d) } else { l.convert_with_local_state(s, d) };
    match r {
        Ok(_) => Ok(()),
        Err(e) => {
            let mut m = String::new();
            e.to_message(&mut m, s);
            let _ = e.to_html(s, d, None);
            let _ = (e.error_message(), e.label());
            if m.is_empty() { return Err("empty error message".into()); }
            Ok(())
        }
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "formulas, token soup, mutated corpus inputs, expansion bombs, long flat inputs, truncations at every character; random configurations; built with debug and overflow assertions".into();
    let mut l = conv(math_core::MathCoreConfig::default());
    // every command followed by every kind of end or argument
    for c in cmds() {
        let n = cs(c.name);
        for t in ["", "}", "{", "{}", "[", "[]{}", "^", "_", "'", "&", "\\\\", "\\end{array}", "1", "é", "#1", "\\right)", "{x", "{}{", "{}{}{}", "=", "-1", "-", ".", "1p", "1.é", "{1.é}", "{é}", "\\left", "%", "\\begin{array}{"] {
            for pre in ["", "x^", "\\sqrt[", "\\begin{array}{c}", "\\left(", "\\text{", "\\hspace{", "\\def\\q{", "\\def\\q#1", "\\let\\q=", "\\global"] {
                let s = format!("{pre}{n}{t}");
                ctx.case(&s, || one(&mut l, &s, MathDisplay::Block, false));
            }
        }
        if ctx.failing() { return; }
    }
    // bombs and long inputs
    let bombs = [
        "\\def\\a#1{\\a{#1#1}}\\a{x}".to_string(), "\\def\\a{\\a\\a}\\a".into(), "\\def\\a#1#2{\\a{#2}{#1#2}}\\a{x}{y}".into(),
        "\\def\\a#1{#1#1}\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{\\a{xy}}}}}}}}}}".into(), "\\def\\a{\\b}\\def\\b{\\a}\\b".into(),
        "%\n".repeat(200_000), "x'".repeat(20_000), "x".repeat(100_000), "\\\\".repeat(5000), "&".repeat(5000), " ".repeat(100_000), "1".repeat(100_000), "\\,".repeat(20_000),
        format!("\\begin{{multline}}{}\\end{{multline}}", "a\\\\".repeat(70_000)), format!("\\begin{{align}}{}\\end{{align}}", "&".repeat(70_000)),
        format!("\\begin{{array}}{{{}}}x\\end{{array}}", "c".repeat(70_000)), format!("\\kern{}pt", "9".repeat(5000)), format!("\\hspace{{-{}.{}em}}", "1".repeat(30), "3".repeat(300)),
        format!("\\begin{{matrix}}{}\\end{{matrix}}", "a&b\\\\\\hline ".repeat(5000)), format!("\\text{{{}}}", "a ".repeat(50_000)),
        format!("{}x", (0..200).map(|i| format!("\\def\\m{}{{y}}", "a".repeat(i + 1))).collect::<String>()),
        "\\def\\a#1#2#3#4#5#6#7#8#9{#9#8#7#6#5#4#3#2#1}\\a123456789".into(),
        "x''''''''''''''''''''''^2".into(), "\\not".repeat(2000), "\\global".repeat(5000), "\\let\\a=\\a\\a".into(), "\\let\\a\\b\\let\\b\\a\\def\\b{\\a}\\b".into(),
    ];
    for b in &bombs {
        for d in [MathDisplay::Block, MathDisplay::Inline] {
            let show: String = if b.len() > 400 { format!("{}… ({} bytes)", b.chars().take(120).collect::<String>(), b.len()) } else { b.clone() };
            ctx.case(&show, || one(&mut l, b, d, false));
        }
        if ctx.failing() { return; }
    }
    // truncations of the corpus at every character
    for (k, s) in corpus().iter().enumerate() {
        if k % 7 != (ctx.seed % 7) as usize && !ctx.thorough { continue; }
        for (i, _) in s.char_indices() {
            ctx.case(&s[..i], || one(&mut l, &s[..i], MathDisplay::Block, false));
        }
        if !ctx.more() { break; }
    }
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let (c, d) = config_named(&mut r);
        let Ok(mut l) = LatexToMathML::new(c) else { ctx.violation(&d, "configuration rejected".into(), None); continue };
        for _ in 0..30 {
            let s = any_input(&mut r);
            let dm = display(&mut r);
            let g = r.chance(1, 3);
            ctx.case(&format!("{s}\n  [{d} {dm:?} global={g}]"), || one(&mut l, &s, dm, g));
        }
        let defs: Vec<(String, String)> = (0..r.below(4)).map(|_| (match r.below(4) { 0 => soup(&mut r, 1), 1 => "m".into(), 2 => "".into(), _ => cmds()[r.below(cmds().len())].name.into() }, { let k = r.below(6); soup(&mut r, k) })).collect();
        let inp = any_input(&mut r);
        ctx.case(&format!("macros {defs:?}, {inp}"), || {
            match LatexToMathML::new(math_core::MathCoreConfig { macros: defs.clone(), ..Default::default() }) {
                Ok(mut l) => { for n in &defs { one(&mut l, &format!("\\{} x{{y}}z", n.0), MathDisplay::Block, true)?; } one(&mut l, &inp, MathDisplay::Inline, true) }
                Err((e, i, def)) => { if i >= defs.len() || defs[i].1 != def { return Err(format!("macro error for index {i}, definition {def:?}")); } let mut m = String::new(); e.to_message(&mut m, &def); let _ = e.to_html(&def, MathDisplay::Block, None); Ok(()) }
            }
        });
    }
}
