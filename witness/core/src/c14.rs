//! C14: isolation of local state, reset of global state, collections.
use crate::generate::*;
use math_core::{LatexToMathML, MathCoreConfig, MathDisplay, MaxExpansions};
use wlib::{Ctx, Rng};

type R = Result<(String, String), String>;
fn show(r: Result<math_core::ConvertResult, Box<math_core::LatexError>>) -> R {
    match r { Ok(c) => Ok((c.mathml, format!("{:?}", c.warnings))), Err(e) => Err(format!("{:?}: {}", e.0, e.error_message())) }
}
fn snippet(r: &mut Rng, k: usize, defined: &[String]) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) {
        let nm = *r.pick(&["\\aa", "\\bb", "\\cc", "\\dd"]);
        match r.below(14) {
            0 => s.push_str(&format!("\\newcommand{{{nm}}}{{{}}}", r.pick(&["x", "\\bb ", "y\\cc z", "\\frac12"]))),
            1 => s.push_str(&format!("\\gdef{nm}{{{}}}", r.pick(&["G", "\\bb ", "g\\dd "]))),
            2 => s.push_str(&format!("\\global\\let{nm}={}", r.pick(&["\\alpha ", "\\bb ", "\\cc ", "\\frac "]))),
            3 => s.push_str(&format!("\\def{nm}#1{{<#1>}}{nm} q")),
            4 => s.push_str(&format!("\\providecommand{{{nm}}}{{p}}")),
            5 => s.push_str(&format!("\\renewcommand{{{nm}}}{{r}}")),
            6 | 7 => s.push_str(&format!("{nm} ")),
            8 => s.push_str(&format!("\\begin{{align}}x\\label{{sl{k}}}\\\\y\\tag{{t{k}}}\\\\z\\end{{align}}")),
            9 => s.push_str("\\begin{equation}a\\end{equation}"),
            10 => if let Some(l) = defined.last() { s.push_str(&format!("\\eqref{{{l}}}")) } else { s.push_str("\\eqref{none}") },
            11 => s.push_str(&format!("\\begin{{gather}}u\\notag\\\\v\\label{{sm{k}}}\\end{{gather}}\\eqref{{zz}}")),
            12 => s.push_str(&formula(r, 6, 2)),
            _ => s.push_str(*r.pick(&["{", "\\mathbf", "\\color{red}", "x'", "\\text{a}", "\\undefinedd", "\\displaystyle "])),
        }
    }
    s
}
fn cfg(r: &mut Rng) -> (Box<dyn Fn() -> MathCoreConfig>, String) {
    let gg = r.chance(1, 2);
    let mac = r.chance(1, 2);
    let ign = r.chance(1, 2);
    let mx = if r.chance(1, 4) { 4 } else { 1000 };
    let ann = r.chance(1, 5);
    (Box::new(move || MathCoreConfig { global_group: gg, ignore_unknown_commands: ign, annotation: ann, max_expansions: MaxExpansions(mx),
        macros: if mac { vec![("cc".into(), "\\bb!".into()), ("bb".into(), "B".into())] } else { vec![] }, ..Default::default() }),
     format!("global_group={gg} macros={mac} ignore_unknown={ign} max={mx} annotation={ann}"))
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random histories of snippets (definitions, uses, numbered equations, labels, references, errors) converted with local and global state, before and after resets, and as a collection; compared with fresh converters".into();
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let (mkc, name) = cfg(&mut r);
        let mut defined: Vec<String> = vec![];
        let mut seq: Vec<(String, MathDisplay)> = vec![];
        for k in 0..r.range(1, 7) {
            let s = snippet(&mut r, k, &defined);
            // a label counts as defined for later references when its row was kept
            for p in ["sl", "sm"] { if s.contains(&format!("\\label{{{p}{k}}}")) { defined.push(format!("{p}{k}")); } }
            seq.push((s, display(&mut r)));
        }
        let text = format!("{}\n  [{name}]", seq.iter().map(|s| format!("{:?} {:?}", s.0, s.1)).collect::<Vec<_>>().join("; "));
        let probe_at = r.below(seq.len() + 1);
        let seed2 = r.next();
        ctx.case(&text, || {
            let new = || conv(mkc());
            // local: independent of history, and changes nothing
            let mut a = new();
            let plain: Vec<R> = { let mut b: LatexToMathML = new(); seq.iter().map(|(s, d)| show(b.convert_with_global_state(s, *d))).collect() };
            for (i, (s, d)) in seq.iter().enumerate() {
                if i >= probe_at {
                    for (t, e) in &seq {
                        let x = show(a.convert_with_local_state(t, *e));
                        let y = show(new().convert_with_local_state(t, *e));
                        if x != y { return Err(format!("local conversion of {t:?} depends on history:\n {x:?}\n {y:?}")); }
                    }
                }
                let g = show(a.convert_with_global_state(s, *d));
                if g != plain[i] { return Err(format!("global conversion of snippet {i} changed by local ones:\n {g:?}\n {:?}", plain[i])); }
            }
            // a first snippet with fresh global state equals the local conversion
            let l0 = show(new().convert_with_local_state(&seq[0].0, seq[0].1));
            if l0 != plain[0] { return Err(format!("first global conversion differs from the local one:\n {l0:?}\n {:?}", plain[0])); }
            // reset
            let mut r2 = wlib::Rng(seed2);
            let cut = r2.below(seq.len()) + 1;
            let mut c = new();
            for (s, d) in &seq[..cut] { let _ = c.convert_with_global_state(s, *d); }
            c.reset_global_state();
            for (i, (s, d)) in seq.iter().enumerate() {
                let g = show(c.convert_with_global_state(s, *d));
                if g != plain[i] { return Err(format!("after {cut} snippets and a reset, snippet {i} gives\n {g:?}\ninstead of\n {:?}", plain[i])); }
            }
            // different continuation after a reset: rotate the sequence
            c.reset_global_state();
            let mut f = new();
            for i in 0..seq.len() {
                let (s, d) = &seq[(i + cut) % seq.len()];
                let (x, y) = (show(c.convert_with_global_state(s, *d)), show(f.convert_with_global_state(s, *d)));
                if x != y { return Err(format!("after a reset {s:?} gives\n {x:?}\ninstead of\n {y:?}")); }
            }
            // collection
            let col: Vec<(&str, MathDisplay)> = seq.iter().map(|(s, d)| (s.as_str(), *d)).collect();
            // (a reference can only resolve earlier in a collection; labels here precede their references, but a label is lost
            // again when its snippet fails, so both resolve it the same way)
            for rep in 0..2 {
                let all: Vec<R> = c.convert_all(&col).into_iter().map(show).collect();
                if all.len() != plain.len() { return Err("convert_all returns another number of results".into()); }
                for i in 0..all.len() { if all[i] != plain[i] { return Err(format!("convert_all (call {rep}) gives for snippet {i}\n {:?}\ninstead of\n {:?}", all[i], plain[i])); } }
            }
            Ok(())
        });
    }
}
