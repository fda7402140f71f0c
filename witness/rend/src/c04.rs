//! C04: every scalar value under every alphabet, against Unicode's compatibility decompositions.
use math_core_renderer_internal::attribute::TextTransform as T;
use math_core_renderer_internal::super_char::SuperChar;
use std::collections::HashMap;
use wlib::Ctx;

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every scalar value under each of the 14 alphabets, upright and not (exhaustive), against the Unicode character database; the unassigned U+03A2 excepted".into();
    let mut tab: HashMap<(&str, char), char> = HashMap::new();
    for l in include_str!("../data/alphabets.txt").lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let ch = |x: &str| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap();
        tab.insert((p[0], ch(p[1])), ch(p[2]));
    }
    let all: [(T, &str, Option<char>); 14] = [(T::Bold, "Bold", None), (T::BoldFraktur, "BoldFraktur", None), (T::BoldItalic, "BoldItalic", None), (T::BoldSansSerif, "BoldSansSerif", None),
        (T::BoldScript, "BoldScript", None), (T::DoubleStruck, "DoubleStruck", None), (T::Fraktur, "Fraktur", None), (T::Italic, "Italic", None), (T::Monospace, "Monospace", None),
        (T::SansSerif, "SansSerif", None), (T::SansSerifBoldItalic, "SansSerifBoldItalic", None), (T::SansSerifItalic, "SansSerifItalic", None),
        (T::ScriptChancery, "Script", Some('\u{fe00}')), (T::ScriptRoundhand, "Script", Some('\u{fe01}'))];
    let mut known = false;
    for (t, name, vs) in all {
        for up in [false, true] {
            for block in 0..(0x110000u32 / 256) {
                ctx.case(&format!("{t:?} upright={up} U+{:04X}..U+{:04X}", block * 256, block * 256 + 255), || {
                    for c in (block * 256..block * 256 + 256).filter_map(char::from_u32) {
                        if c == '\u{3a2}' { continue; }
                        let nm = if name == "BoldItalic" && up { "Bold" } else { name };
                        let got: Vec<char> = std::panic::catch_unwind(|| t.transform_char(c, up).chars().collect()).map_err(|_| format!("{t:?} of U+{:04X} panics", c as u32))?;
                        let mut want = vec![];
                        match tab.get(&(nm, c)) { Some(&m) => { want.push(m); want.extend(vs); } None => want.push(c) }
                        if name == "Fraktur" && c == 'I' && got == ['\u{210d}'] { known = true; continue; }
                        if got != want { return Err(format!("{t:?} (upright={up}) of U+{:04X} {c:?} gives {got:?} instead of {want:?}", c as u32)); }
                        let g2: Vec<char> = t.transform(SuperChar::from_char(c), up).chars().collect();
                        if g2 != want { return Err(format!("{t:?} (upright={up}) of the symbol U+{:04X} {c:?} gives {g2:?} instead of {want:?}", c as u32)); }
                    }
                    Ok(())
                });
                if ctx.failing() { return; }
            }
        }
    }
    if known { ctx.violation("Fraktur of U+0049 'I'", "gives U+210D instead of U+2111".into(), Some("fraktur-I")); }
}
