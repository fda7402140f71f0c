//! C04: math alphabets through the public interface.
use crate::generate::*;
use std::collections::HashMap;
use wlib::{xml, Ctx, Rng};

const CMDS: [(&str, &str, &str); 16] = [("mathbf", "Bold", ""), ("bold", "Bold", ""), ("mathbb", "DoubleStruck", ""), ("Bbb", "DoubleStruck", ""), ("bm", "BoldItalic", ""), ("boldsymbol", "BoldItalic", ""), ("symbf", "BoldItalic", ""),
    ("mathfrak", "Fraktur", ""), ("frak", "Fraktur", ""), ("mathcal", "Script", "\u{fe00}"), ("mathscr", "Script", "\u{fe01}"), ("mathit", "Italic", ""), ("mathsf", "SansSerif", ""), ("mathtt", "Monospace", ""), ("mathrm", "None", ""), ("mathup", "None", "")];
const SWITCH: [(&str, &str, &str); 6] = [("bf", "Bold", ""), ("cal", "Script", "\u{fe00}"), ("it", "Italic", ""), ("rm", "None", ""), ("sf", "SansSerif", ""), ("tt", "Monospace", "")];

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every alphabet command on every letter, digit and letter command, and random nested sequences of them; expected characters from the Unicode character database".into();
    let l = plain();
    let mut tab: HashMap<(&str, char), char> = HashMap::new();
    for x in include_str!("../data/alphabets.txt").lines() {
        let p: Vec<&str> = x.split(' ').collect();
        let ch = |x: &str| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap();
        tab.insert((p[0], ch(p[1])), ch(p[2]));
    }
    let read = |s: &str| -> Option<(String, bool, bool)> {
        let m = block(&l, s).ok()?;
        let e = xml::parse(&m).ok()?;
        let up = e.find_all("mi").iter().any(|e| e.attr("mathvariant") == Some("normal"));
        let letter = !e.find_all("mi").is_empty() || !e.find_all("mn").is_empty();
        Some((e.text(), up, letter))
    };
    let map = |t: &str, up: bool, alpha: &str, vs: &str| -> String {
        let a = if alpha == "BoldItalic" && up { "Bold" } else { alpha };
        let mut it = t.chars();
        match (it.next(), it.next()) { (Some(c), None) => match tab.get(&(a, c)) { Some(m) => format!("{m}{vs}"), None => t.to_string() }, _ => t.to_string() }
    };
    // every letter: literal ASCII, Greek, letterlike, and commands
    let mut atoms: Vec<(String, String, bool)> = vec![];
    let mut src: Vec<String> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain('Α'..='Ρ').chain('Σ'..='ϝ').chain("ϰϱϴϵ∂∇ıȷℏℓé".chars()).map(|c| c.to_string()).collect();
    for k in ["Letter", "UprightLetter", "Ord"] { src.extend(of_kind(k).into_iter().map(cs)); }
    for s in src { if let Some((t, up, letter)) = read(&s) && letter { atoms.push((s, t, up)); } }
    let mut known = false;
    for (cmd, alpha, vs) in CMDS {
        if block(&l, &format!("\\{cmd}{{x}}")).is_err() { continue; }
        ctx.case(&format!("\\{cmd} on every letter"), || {
            for (s, t, up) in &atoms {
                let want = map(t, *up, alpha, vs);
                for q in [format!("\\{cmd}{{{s}}}"), format!("\\{cmd} {s}")] {
                    let Some((got, _, _)) = read(&q) else { return Err(format!("{q:?} fails")) };
                    if alpha == "Fraktur" && t == "I" && got == "\u{210d}" { known = true; continue; }
                    if got != want { return Err(format!("{q:?} is written as {got:?} instead of {want:?}")); }
                }
            }
            Ok(())
        });
        if ctx.failing() { return; }
    }
    if known { ctx.violation("\\mathfrak{I}", "gives U+210D instead of U+2111".into(), Some("fraktur-I")); }
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let (mut s, mut want) = (String::new(), String::new());
        fn seq(r: &mut Rng, d: usize, alpha: Option<(&str, &str)>, atoms: &[(String, String, bool)], map: &dyn Fn(&str, bool, &str, &str) -> String, s: &mut String, w: &mut String) {
            for _ in 0..r.range(1, 5) {
                match r.below(if d == 0 { 7 } else { 12 }) {
                    0..=4 => {
                        let (a, t, up) = r.pick(atoms);
                        if t == "I" { continue; }
                        s.push_str(a);
                        match alpha { Some((al, vs)) => w.push_str(&map(t, *up, al, vs)), None => w.push_str(t) }
                    }
                    5 => { s.push_str("+"); w.push('+'); }
                    6 => { s.push_str("\\text{ab}"); w.push_str("ab"); }
                    7 => { s.push('{'); seq(r, d - 1, alpha, atoms, map, s, w); s.push('}'); }
                    8 | 9 => { let (c, al, vs) = *r.pick(&CMDS[..15]); s.push_str(&format!("\\{c}{{")); seq(r, d - 1, Some((al, vs)), atoms, map, s, w); s.push('}'); }
                    10 => { let (c, al, vs) = *r.pick(&SWITCH); s.push_str(&format!("{{\\{c} ")); seq(r, d - 1, Some((al, vs)), atoms, map, s, w); s.push('}'); }
                    _ => { s.push_str("\\sqrt{"); seq(r, d - 1, alpha, atoms, map, s, w); s.push_str("}"); }
                }
            }
        }
        seq(&mut r, 3, None, &atoms, &map, &mut s, &mut want);
        ctx.case(&s, || {
            let Some((got, _, _)) = read(&s) else { return Ok(()) };
            if got != want { return Err(format!("written as {got:?} instead of {want:?}")); }
            Ok(())
        });
    }
}
