//! C02: every successful conversion is one well-formed MathML element.
use crate::generate::*;
use wlib::{xml, Ctx};

pub fn check(out: &str, ns: bool, block: bool) -> Result<(), String> {
    let e = xml::parse(out).map_err(|m| format!("{m}: {out:?}"))?;
    xml::mathml_rules(&e).map_err(|m| format!("{m}: {out:?}"))?;
    if e.attr("xmlns").is_some() != ns { return Err(format!("xmlns attribute: {out:?}")); }
    if (e.attr("display") == Some("block")) != block { return Err(format!("display attribute: {out:?}")); }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "grammar-generated formulas with every command kind, token soup, and mutated corpus inputs, under random configurations; the output is read by a strict XML reader and child counts are checked".into();
    let base = conv(math_core::MathCoreConfig { annotation: true, ..Default::default() });
    let lenient = conv(math_core::MathCoreConfig { ignore_unknown_commands: true, ..Default::default() });
    // each command by itself and with arguments of every shape
    for c in cmds() {
        let n = cs(c.name);
        for t in ["", "{x}", "{x}{y}", "{x}{y}{z}", "(", "_a^b{c}", "{<&}", "{\\Big/}", "{\\middle|}", "[<]{y}", "{1em}{x}", "[1pt]{1em}{2em}", "{a}{b}{c}{d}"] {
            for pre in ["", "\\mathrel", "x_", "\\not", "\\left(", "\\text"] {
                let s = if pre.is_empty() { format!("{n}{t}") } else if pre == "\\left(" { format!("\\left({n}{t}\\right<") } else { format!("{pre}{{{n}{t}}}") };
                ctx.case(&s, || match base.convert_with_local_state(&s, math_core::MathDisplay::Block) { Ok(m) => check(&m.mathml, false, true), Err(_) => Ok(()) });
            }
        }
        if ctx.failing() { return; }
    }
    // every place where a string of the input is written, with every kind of character
    for t in ["<", ">", "&", "\"", "'", "]]>", "&amp;", "<!--", "é", "\u{7f}", "a b", "%", "--", "a<b", "\u{a0}", "\u{200b}", "\u{fffd}", "=\"\"", "/>", "<x", "x\"y", "\\&", "\\<"] {
        for p in ["\\begin{align}a\\tag{@}\\label{@}\\\\\\eqref{@}\\end{align}", "\\begin{align}a\\tag*{@}\\label{l}\\\\\\eqref{l}\\end{align}", "\\eqref{@}", "\\text{@}", "\\operatorname{@}", "\\operatorname*{@}_x", "\\href{@}{@}", "\\url{@}", "\\mathrm{@}", "\\mathbf{@}", "\\mathfrak{@}", "\\@", "\\left@x\\right.", "\\big@", "@", "\\not@", "\\hat@", "x_@^@", "\\mathop{@}", "\\color{@}x", "\\overset{@}{@}", "\\sqrt[@]{@}", "\\textbf{@}", "\\genfrac{@}{@}{}{}{a}{b}", "\\def\\m#1{#1}\\m{@}", "\\def\\m#1{\\text{#1}}\\m{@}", "\\begin{@}", "\\raisebox{1pt}{@}", "\\mathrel{@}", "\\mathstrut@", "\\tag{@}"] {
            let s = p.replace('@', t);
            for l in [&base, &lenient] {
                ctx.case(&s, || match l.convert_with_local_state(&s, math_core::MathDisplay::Block) { Ok(m) => check(&m.mathml, false, true), Err(_) => Ok(()) });
            }
        }
        if ctx.failing() { return; }
    }
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let (c, d) = config_named(&mut r);
        let ns = c.xml_namespace;
        let mut l = match math_core::LatexToMathML::new(c) { Ok(l) => l, Err(e) => { ctx.violation(&d, e.0.error_message(), None); continue } };
        for _ in 0..20 {
            let s = any_input(&mut r);
            if !xml_ok(&s) { continue; }
            let dm = display(&mut r);
            let global = r.chance(1, 3);
            ctx.case(&format!("{s}\n  [{d} {dm:?} global={global}]"), || {
                let res = if global { l.convert_with_global_state(&s, dm) } else { l.convert_with_local_state(&s, dm) };
                match res { Ok(m) => check(&m.mathml, ns, dm == math_core::MathDisplay::Block), Err(_) => Ok(()) }
            });
        }
    }
}
