//! C16: pretty printing only inserts line breaks and indentation between tags.
use crate::generate::*;
use math_core::{IndentKeyword, Indentation, LatexToMathML, MathCoreConfig, MathDisplay, PrettyPrint};
use wlib::Ctx;

/// Removes the inserted breaks from `p`, using `n` (the output without pretty printing) only to tell text from tags by structure.
fn check(p: &str, n: &str, unit: &str) -> Result<(), String> {
    let pb = p.as_bytes();
    let (mut i, mut j) = (0usize, 0usize);
    // the line each open element starts on
    let mut open: Vec<usize> = vec![];
    let level = |o: &[usize]| { let mut v = o.to_vec(); v.dedup(); v.len() };
    let mut breaks = 0usize;
    let nb = n.as_bytes();
    // walk both; at a tag boundary of `n` an inserted break may come in `p`
    while j < nb.len() {
        let at_tag = nb[j] == b'<';
        let after_tag = j > 0 && nb[j - 1] == b'>';
        if at_tag && after_tag && i < pb.len() && pb[i] == b'\n' {
            i += 1;
            let close = nb.get(j + 1) == Some(&b'/');
            // (elements that start on one line count as one level)
            let want = if close { level(&open).checked_sub(1).ok_or("unbalanced")? } else { level(&open) };
            let ind = unit.repeat(want);
            if !p[i..].starts_with(&ind) { return Err(format!("indentation at byte {i} is not {want} units")); }
            i += ind.len();
            if pb.get(i) != Some(&b'<') { return Err(format!("indentation at byte {i} is more than {want} units")); }
            breaks += 1;
        }
        if at_tag {
            if nb.get(j + 1) == Some(&b'/') { open.pop().ok_or("unbalanced")?; } else {
                let mut k = j;
                while k < nb.len() && nb[k] != b'>' { k += 1; }
                if k > 0 && nb[k - 1] != b'/' { open.push(breaks); }
            }
        }
        if i >= pb.len() || pb[i] != nb[j] { return Err(format!("outputs differ at byte {i} of the pretty output (byte {j} of the plain one)")); }
        i += 1;
        j += 1;
    }
    if i != pb.len() { return Err("text after the end".into()); }
    if breaks == 0 { return Err("no line break inserted".into()); }
    Ok(())
}
fn mk(p: PrettyPrint, ind: Indentation, ann: bool, ign: bool) -> LatexToMathML {
    conv(MathCoreConfig { pretty_print: p, indentation: ind, annotation: ann, ignore_unknown_commands: ign, ..Default::default() })
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "formulas of every kind printed three ways with random indentation settings; inserted breaks are removed by an independent walker that knows the nesting depth".into();
    let mut first: Vec<String> = corpus().iter().step_by(3).cloned().collect();
    first.reverse();
    while ctx.more() {
        let mut r = wlib::Rng(ctx.rng.next());
        let (ind, unit) = match r.below(4) { 0 => (Indentation::Keyword(IndentKeyword::Tab), "\t".to_string()), 1 => (Indentation::default(), " ".repeat(4)), _ => { let k = match r.below(4) { 0 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]), _ => r.below(14) }; (Indentation::Spaces(k), " ".repeat(k)) } };
        let (ann, ign) = (r.chance(1, 3), r.chance(1, 3));
        let ls = [mk(PrettyPrint::Never, ind, ann, ign), mk(PrettyPrint::Always, ind, ann, ign), mk(PrettyPrint::Auto, ind, ann, ign)];
        for _ in 0..12 {
            let s = first.pop().unwrap_or_else(|| any_input(&mut r));
            ctx.case(&format!("{s}\n  [indentation {unit:?} annotation={ann} ignore_unknown={ign}]"), || {
                for d in [MathDisplay::Block, MathDisplay::Inline] {
                    let o: Vec<_> = ls.iter().map(|l| go(l, &s, d)).collect();
                    match (&o[0], &o[1], &o[2]) {
                        (Ok(n), Ok(p), Ok(a)) => {
                            check(p, n, &unit).map_err(|e| format!("{e}\nplain:  {n:?}\npretty: {p:?}"))?;
                            let want = if d == MathDisplay::Block { p } else { n };
                            if a != want { return Err(format!("automatic mode in {d:?} gives {a:?}")); }
                        }
                        (Err(_), Err(_), Err(_)) => {}
                        _ => return Err("only some of the modes fail".into()),
                    }
                }
                Ok(())
            });
        }
    }
}
