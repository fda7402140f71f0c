//! C03: symbols, variation selectors and negation as they appear in the output.
use crate::generate::*;
use std::collections::{HashMap, HashSet};
use wlib::{xml, Ctx, Rng};
use math_core::LatexToMathML;

fn unicode() -> (HashMap<char, char>, HashSet<char>) {
    let m: HashMap<char, char> = include_str!("../data/negated.txt").lines().map(|l| { let mut p = l.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()); (p.next().unwrap(), p.next().unwrap()) }).collect();
    let v = m.values().copied().collect();
    (m, v)
}
pub fn text_of(l: &LatexToMathML, s: &str) -> Option<String> {
    let m = block(l, s).ok()?;
    xml::parse(&m).ok().map(|e| e.text())
}
const SYMBOL_KINDS: [&str; 16] = ["Relation", "BinaryOp", "ForceBinaryOp", "Ord", "Op", "Open", "Close", "Letter", "UprightLetter", "ForceRelation", "ForcePunctuation", "ForceOpen", "ForceClose", "ForceOrd", "MathOrTextMode", "ForceDefault"];
pub fn dump() {
    let l = plain();
    let mut seen = HashSet::new();
    for c in cmds() {
        if SYMBOL_KINDS.contains(&c.kind) && seen.insert(c.name) && let Some(t) = text_of(&l, &cs(c.name)) { println!("{}\t{}", c.name, t.chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ")); }
    }
    for c in (1..0x30000u32).filter_map(char::from_u32) {
        if let Some(t) = text_of(&l, &c.to_string()) && t != c.to_string() { eprintln!("{:04X} {c:?} -> {t:?}", c as u32); }
        else if text_of(&l, &c.to_string()).is_none() { eprintln!("{:04X} error", c as u32); }
    }
}
fn negate(t: &str, u: &(HashMap<char, char>, HashSet<char>)) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    if cs.is_empty() { return String::new(); }
    let has_vs = cs.get(1).is_some_and(|c| ('\u{fe00}'..='\u{fe0e}').contains(c));
    if !has_vs { if let Some(&p) = u.0.get(&cs[0]) { cs[0] = p; return cs.into_iter().collect(); } if u.1.contains(&cs[0]) { return t.to_string(); } }
    cs.insert(if has_vs { 2 } else { 1 }, '\u{338}');
    cs.into_iter().collect()
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every symbol command and every literal character (BMP and mathematical planes), alone, with each variation selector, under \\not, \\slashed and \\vertoverlay, and in random formulas; expected characters from a fixed symbol table and Unicode's canonical composition".into();
    let l = plain();
    let u = unicode();
    let table: HashMap<&str, String> = include_str!("../data/symbols.txt").lines().filter_map(|x| { let (n, h) = x.split_once('\t')?; Some((n, h.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect())) }).collect();
    let raw = |s: &str| -> Result<Option<(String, String)>, String> { match block(&l, s) { Ok(m) => { let e = xml::parse(&m).map_err(|e| format!("{e}: {m}"))?; Ok(Some((e.text(), m))) } Err(_) => Ok(None) } };
    let neg_ok: HashSet<&str> = ["Relation", "BinaryOp", "Letter", "Open", "Close", "Ord"].into();
    let mut done = HashSet::new();
    for c in cmds() {
        if !SYMBOL_KINDS.contains(&c.kind) || !done.insert(c.name) { continue; }
        let Some(want) = table.get(c.name) else { continue };
        let s = cs(c.name);
        ctx.case(&s, || {
            match raw(&s)? {
                Some((t, m)) => { if &t != want { return Err(format!("{s:?} is written as {t:?} instead of {want:?}: {m}")); } }
                None => return Err(format!("{s:?} fails")),
            }
            for (p, w) in [("\\not", negate(want, &u)), ("\\slashed", negate(want, &u)), ("\\not\\not", negate(want, &u)), ("\\vertoverlay", { let mut v: Vec<char> = want.chars().collect(); let k = if v.get(1).is_some_and(|c| ('\u{fe00}'..='\u{fe0e}').contains(c)) { 2 } else { 1 }; v.insert(k.min(v.len()), '\u{20d2}'); v.into_iter().collect() })] {
                if want.chars().filter(|c| !('\u{fe00}'..='\u{fe0f}').contains(c)).count() != 1 { continue; }
                let q = format!("{p}{s}");
                match raw(&q)? {
                    Some((t, m)) => if t != w { return Err(format!("{q:?} is written as {t:?} instead of {w:?}: {m}")); },
                    None => if neg_ok.contains(c.kind) { return Err(format!("{q:?} fails")); },
                }
            }
            Ok(())
        });
        if ctx.failing() { return; }
    }
    // literal characters
    let blocks: Vec<u32> = (0..0x30).chain([0x1d4, 0x1d5, 0x1d6, 0x1d7, 0x1ee, 0xfe, 0xff, 0x1f6, 0x100]).chain(if ctx.thorough { 0x30..0xfe } else { 0x30..0x32 }).collect();
    for b in blocks {
        ctx.case(&format!("literal characters U+{:04X}..U+{:04X}", b * 256, b * 256 + 255), || {
            for c in (b * 256..b * 256 + 256).filter_map(char::from_u32) {
                if c < ' ' || special(c) { continue; }
                let s = c.to_string();
                let Some((t, m)) = raw(&s)? else { continue };
                let want = match c { '-' => "−".into(), '*' => "∗".into(), '\'' => "′".into(), '~' => "\u{a0}".into(), '"' => "”".into(), '`' => "‘".to_string(), c => c.to_string() };
                if t != want { return Err(format!("{s:?} is written as {t:?} instead of {want:?}: {m}")); }
                if vs_char(c) || c == ' ' { continue; }
                for (p, w) in [("\\not ", negate(&want, &u)), ("\\vertoverlay ", format!("{want}\u{20d2}"))] {
                    if let Some((t, m)) = raw(&format!("{p}{c}"))? && t != w { return Err(format!("\"{p}{c}\" is written as {t:?} instead of {w:?}: {m}")); }
                }
                for k in [0xfe00u32, 0xfe01, 0xfe00 + (c as u32 % 15), 0xfe0f] {
                    let vs = char::from_u32(k).unwrap();
                    if u.0.contains_key(&c) || u.1.contains(&c) { continue; }
                    if want != s { continue; }
                    let Some((t, m)) = raw(&format!("{c}{vs}"))? else { continue };
                    if t != format!("{c}{vs}") { return Err(format!("\"{c}{vs}\" is written as {t:?}: {m}")); }
                }
            }
            Ok(())
        });
        if ctx.failing() { return; }
    }
    // sequences: nothing added, lost or reordered
    let syms: Vec<(&str, &String)> = table.iter().map(|(k, v)| (*k, v)).collect();
    let mut syms = syms;
    syms.sort();
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut s = String::new();
        let mut want = String::new();
        for _ in 0..r.range(2, 9) {
            let (n, t) = *r.pick(&syms);
            if matches!(n, "&" | "left" | "right" | "dots") { continue; }
            let not = r.chance(1, 5) && t.chars().count() == 1;
            if not { if raw(&format!("\\not{}", cs(n))).ok().flatten().is_none() { continue; } s.push_str("\\not"); want.push_str(&negate(t, &u)); } else { want.push_str(t); }
            s.push_str(&cs(n));
            if r.chance(1, 4) { let c = char::from(r.range(b'a' as usize, b'z' as usize) as u8); s.push_str(&format!("{{{c}}}")); want.push(c); }
        }
        let ok = |a: &str| a.chars().filter(|c| !c.is_whitespace() && *c != '\u{2061}').collect::<String>();
        ctx.case(&s, || {
            let Some((t, m)) = raw(&s)? else { return Ok(()) };
            if ok(&t) != ok(&want) { return Err(format!("written as {t:?} instead of {want:?}: {m}")); }
            Ok(())
        });
    }
}
fn special(c: char) -> bool { "\\{}#$%&^_".contains(c) || c.is_whitespace() }
fn vs_char(c: char) -> bool { ('\u{fe00}'..='\u{fe0f}').contains(&c) || ('\u{300}'..='\u{36f}').contains(&c) || ('\u{20d0}'..='\u{20ff}').contains(&c) }
