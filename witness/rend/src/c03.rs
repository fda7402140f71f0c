//! C03: packed symbols, exhaustively over all scalar values, selectors and overlays.
use math_core_renderer_internal::super_char::{OverlayChar, SuperChar, VariationSelector as V};
use math_core_renderer_internal::symbol::BMPOperator;
use std::collections::HashMap;
use wlib::Ctx;

const VS: [V; 15] = [V::Vs1, V::Vs2, V::Vs3, V::Vs4, V::Vs5, V::Vs6, V::Vs7, V::Vs8, V::Vs9, V::Vs10, V::Vs11, V::Vs12, V::Vs13, V::Vs14, V::Vs15];

pub fn negated() -> HashMap<char, char> {
    include_str!("../data/negated.txt").lines().map(|l| { let mut p = l.split(' ').map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()); (p.next().unwrap(), p.next().unwrap()) }).collect()
}
fn expect(base: char, vs: Option<usize>, sol: bool, vert: bool, neg: &HashMap<char, char>, is_neg: &dyn Fn(char) -> bool) -> Vec<char> {
    let mut v = vec![base];
    let mut sol = sol;
    if sol && vs.is_none() {
        if let Some(&p) = neg.get(&base) { v[0] = p; sol = false; } else if is_neg(base) { sol = false; }
    }
    if let Some(k) = vs { v.push(char::from_u32(0xFE00 + k as u32).unwrap()); }
    if sol { v.push('\u{338}'); }
    if vert { v.push('\u{20D2}'); }
    v
}
fn one(s: SuperChar, want: &[char], vs: Option<usize>) -> Result<(), String> {
    if !s.chars().eq(want.iter().copied()) { return Err(format!("unpacks to {:?} instead of {want:?}", s.chars().take(8).collect::<Vec<_>>())); }
    if s.base_char() != want[0] { return Err(format!("base character {:?} instead of {:?}", s.base_char(), want[0])); }
    if s.has_vs() != vs.is_some() { return Err("has_vs".into()); }
    if s.vs().map(|v| v as usize) != vs.map(|k| k + 1) { return Err(format!("selector {:?}", s.vs())); }
    let single = if want.len() == 1 { Some(want[0]) } else { None };
    if s.try_as_char() != single { return Err(format!("try_as_char gives {:?} instead of {single:?}", s.try_as_char())); }
    let mut buf = [0u8; SuperChar::MAX_LEN_UTF8];
    let t = s.encode_utf8(&mut buf);
    if !t.chars().eq(want.iter().copied()) { return Err(format!("encodes as {t:?} instead of {want:?}")); }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every scalar value with no selector and each of 15, with neither, either and both overlays in either order (exhaustive); Display sampled; negation against Unicode's canonical composition".into();
    let neg = negated();
    let vals: std::collections::HashSet<char> = neg.values().copied().collect();
    let is_neg = |c: char| vals.contains(&c);
    for c in '\0'..=char::MAX {
        // one case per character
        let name = if (c as u32) % 61 == 0 || neg.contains_key(&c) || is_neg(c) { format!("U+{:04X} with every selector and overlay", c as u32) } else { String::new() };
        let deep = !name.is_empty();
        let body = || {
            for vs in std::iter::once(None).chain((0..15).map(Some)) {
                // (composed characters take no selector)
                if vs.is_some() && (neg.contains_key(&c) || is_neg(c)) { continue; }
                // at full depth for a sample and the composed ones, otherwise two selectors
                if !deep && let Some(k) = vs && k != (c as usize) % 15 && k != 0 { continue; }
                let b = match vs { None => SuperChar::from_char(c), Some(k) => SuperChar::from_char_with_vs(c, VS[k]) };
                let ex = |s, v| expect(c, vs, s, v, &neg, &is_neg);
                let at = |w: &str, r: Result<(), String>| r.map_err(|e| format!("U+{:04X}, selector {:?}, {w}: {e}", c as u32, vs.map(|k| k + 1)));
                at("plain", one(b, &ex(false, false), vs))?;
                let s = b.with_overlay(OverlayChar::Solidus);
                at("negated", one(s, &ex(true, false), vs))?;
                let v = b.with_overlay(OverlayChar::VerticalLine);
                at("vertical", one(v, &ex(false, true), vs))?;
                at("both", one(s.with_overlay(OverlayChar::VerticalLine), &ex(true, true), vs))?;
                at("both, other order", one(v.with_overlay(OverlayChar::Solidus), &ex(true, true), vs))?;
                at("negated twice", one(s.with_overlay(OverlayChar::Solidus), &ex(true, false), vs))?;
                if deep {
                    for x in [b, s, v] { if x.to_string() != x.chars().collect::<String>() { return Err(format!("displayed as {:?}", x.to_string())); } }
                }
            }
            if (c as u32) < 0x10000 {
                let o = BMPOperator::new(c);
                let esc = |s: &[char]| s.iter().map(|c| match c { '<' => "&lt;".to_string(), '>' => "&gt;".into(), '&' => "&amp;".into(), c => c.to_string() }).collect::<String>();
                let op = o.as_op();
                if o.as_char() != c || op.try_as_char() != Some(c) || op.to_string() != esc(&[c]) { return Err(format!("operator U+{:04X} written as {:?}", c as u32, op.to_string())); }
                let n = op.with_overlay(OverlayChar::Solidus);
                let want = expect(c, None, true, false, &neg, &is_neg);
                if n.to_string() != esc(&want) || !n.as_chars().eq(want.iter().copied()) { return Err(format!("negated operator U+{:04X} written as {:?} instead of {:?}", c as u32, n.to_string(), esc(&want))); }
            }
            Ok(())
        };
        if deep || (c as u32) % 256 == 1 { ctx.case(if deep { &name } else { "a character" }, body); }
        else {
            // cheap path, no bookkeeping
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => ctx.violation(&format!("U+{:04X}", c as u32), e, None),
                Err(_) => ctx.violation(&format!("U+{:04X}", c as u32), "panicked".into(), None),
            }
        }
        if ctx.failing() { return; }
    }
}
