//! C15: every named colour, all hexadecimal digits, components on a grid and random ones, and malformed specifications.
use crate::generate::*;
use math_core::LatexToMathML;
use std::collections::HashMap;
use wlib::{Ctx, Rng, xml};

type Rgb = (u8, u8, u8);
fn names() -> HashMap<&'static str, Rgb> {
    include_str!("../data/colors.txt").lines().map(|l| { let p: Vec<&str> = l.split(' ').collect(); (p[0], (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap())) }).collect()
}
/// The colours written, in order.
fn colours(out: &str) -> Result<Vec<String>, String> {
    let e = xml::parse(out)?;
    let mut v = vec![];
    e.walk(&mut |x| for a in &x.attrs { for part in a.1.split(';') { if let Some(c) = part.trim().strip_prefix("color:") { v.push(c.to_string()); } } });
    Ok(v)
}
/// A numeral with at most one point and at least one digit: value times 10^19 if it is small enough.
fn numeral(s: &str) -> Option<(bool, u128, u32)> {
    let s = s.trim_matches(' ');
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s) };
    if d.matches('.').count() > 1 || !d.bytes().all(|b| b == b'.' || b.is_ascii_digit()) { return None; }
    let n: String = d.chars().filter(|c| *c != '.').collect();
    if n.is_empty() { return None; }
    let m: u64 = n.parse().ok()?;
    Some((neg, m as u128, d.find('.').map_or(0, |i| (d.len() - i - 1) as u32)))
}
/// The possible values of a component.
fn comp(s: &str, frac: bool) -> Option<Vec<u8>> {
    let (neg, m, k) = numeral(s)?;
    if neg && m != 0 { return None; }
    let p = 10u128.pow(k);
    if frac {
        if m > p { return None; }
        let x = 255 * m * 2 + p; // twice (255 v + 1/2)
        let lo = x / (2 * p);
        let dist = (x % (2 * p)) as f64 / (2 * p) as f64;
        let mut v = vec![lo as u8];
        if dist < 1e-4 && lo > 0 { v.push(lo as u8 - 1); }
        if dist > 1.0 - 1e-4 && lo < 255 { v.push(lo as u8 + 1); }
        Some(v)
    } else {
        if m % p != 0 { return Some(vec![]); } // not an integer: outside
        if m / p > 255 { return None; }
        Some(vec![(m / p) as u8])
    }
}
enum Want { Exactly(Vec<(Vec<u8>, Vec<u8>, Vec<u8>)>), Error, Any }
fn want(kind: Option<&str>, spec: &str, names: &HashMap<&'static str, Rgb>) -> Want {
    let one = |c: Rgb| Want::Exactly(vec![(vec![c.0], vec![c.1], vec![c.2])]);
    match kind {
        None => names.get(spec).map_or(Want::Error, |c| one(*c)),
        Some("HTML") => if spec.len() == 6 && spec.bytes().all(|b| b.is_ascii_hexdigit()) { let h = |i: usize| u8::from_str_radix(&spec[i..i + 2], 16).unwrap(); one((h(0), h(2), h(4))) } else { Want::Error },
        Some(k @ ("rgb" | "RGB")) => {
            let p: Vec<&str> = spec.split(',').collect();
            if p.len() != 3 { return Want::Error; }
            let c: Option<Vec<Vec<u8>>> = p.iter().map(|x| comp(x, k == "rgb")).collect();
            match c { None => Want::Error, Some(c) => if c.iter().any(|v| v.is_empty()) { Want::Any } else { Want::Exactly(vec![(c[0].clone(), c[1].clone(), c[2].clone())]) } }
        }
        Some(_) => Want::Error,
    }
}
fn check(l: &LatexToMathML, src: &str, w: &[(Option<String>, String)], names: &HashMap<&'static str, Rgb>) -> Result<(), String> {
    let out = block(l, src);
    let ws: Vec<Want> = w.iter().map(|(k, s)| want(k.as_deref(), s, names)).collect();
    if ws.iter().any(|x| matches!(x, Want::Any)) { return Ok(()); }
    let bad = ws.iter().any(|x| matches!(x, Want::Error));
    match out {
        Err(e) => if bad { Ok(()) } else { Err(format!("rejected: {}", e.error_message())) },
        Ok(o) => {
            let got = colours(&o)?;
            if bad { return Err(format!("accepted as {got:?}")); }
            if got.len() != ws.len() { return Err(format!("colours written: {got:?} for {} specifications", ws.len())); }
            for (g, x) in got.iter().zip(&ws) {
                let Want::Exactly(v) = x else { unreachable!() };
                let b = g.as_bytes();
                let form = b.len() == 7 && b[0] == b'#' && b[1..].iter().all(|c| c.is_ascii_hexdigit());
                let val = if form { (1..7).step_by(2).map(|i| u8::from_str_radix(&g[i..i + 2], 16).unwrap()).collect::<Vec<_>>() } else { return Err(format!("colour written as {g:?}")) };
                let (r, gr, bl) = &v[0];
                if !(r.contains(&val[0]) && gr.contains(&val[1]) && bl.contains(&val[2])) { return Err(format!("colour {g} written instead of components {r:?} {gr:?} {bl:?}")); }
            }
            Ok(())
        }
    }
}
fn spec(r: &mut Rng, names: &[&str]) -> (Option<String>, String) {
    let num = |r: &mut Rng, frac: bool| -> String {
        match r.below(12) {
            0 => r.pick(&["", "-", ".", "-1", "-0", "1.0", "256", "255.", "1.00001", "2", "0x1", "1e2", "+1", "1..2", "1.2.3", "--1", "a", "99999999999999999999999", "0.00000000000000000000001", "255.0", "300", "1,5", "1/2", "٣"]).to_string(),
            _ => if frac { match r.below(5) { 0 => "0".into(), 1 => "1".into(), 2 => format!(".{}", r.below(1000)), 3 => format!("0.{:03}", r.below(1000)), _ => format!("0.{:07}", r.below(10_000_000)) } } else { match r.below(6) { 0 => "0".into(), 1 => "255".into(), 2 => format!("{:03}", r.below(256)), 3 => format!("{}.0", r.below(256)), _ => r.below(256).to_string() } },
        }
    };
    match r.below(9) {
        0 | 1 => (None, match r.below(6) { 0 => r.pick(&["Red ", "RED", "", "gren", "rred", "re", "Black1", "#ff0000", "none"]).to_string(), 1 => { let n = *r.pick(names); let mut s: Vec<char> = n.chars().collect(); let i = r.below(s.len()); s[i] = if s[i].is_lowercase() { s[i].to_ascii_uppercase() } else { s[i].to_ascii_lowercase() }; s.into_iter().collect() } _ => r.pick(names).to_string() }),
        2..=4 => (Some("HTML".into()), {
            let n = if r.chance(1, 8) { r.below(9) } else { 6 };
            let bad = r.chance(1, 6);
            let mut s: Vec<char> = (0..n).map(|_| *r.pick(&"0123456789abcdefABCDEF".chars().collect::<Vec<_>>())).collect();
            if bad && n > 0 { let i = r.below(n); s[i] = *r.pick(&['g', 'G', '/', ':', '@', '`', ' ', '-', '+', 'x', 'o', 'O']); }
            s.into_iter().collect()
        }),
        k @ (5 | 6 | 7) => {
            let frac = k != 7;
            let n = if r.chance(1, 10) { r.below(6) } else { 3 };
            let v: Vec<String> = (0..n).map(|_| { let p = num(r, frac); if r.chance(1, 6) { format!(" {p} ") } else { p } }).collect();
            (Some(if frac { "rgb" } else { "RGB" }.into()), v.join(","))
        }
        _ => (Some(r.pick(&["Rgb", "html", "gray", "cmyk", "HTM", "RGBA", "x"]).to_string()), r.pick(&["aabbcc", "1,2,3", "0,0,0"]).to_string()),
    }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "every named colour; all hexadecimal digits in every position; every integer component; every fraction of up to three digits; random well-formed and malformed specifications, several in one formula".into();
    let names = names();
    let mut list: Vec<&str> = names.keys().copied().collect();
    list.sort();
    let l = plain();
    for n in &list { if ctx.failing() { return; } let s = format!("\\color{{{n}}}x"); ctx.case(&s, || check(&l, &s, &[(None, n.to_string())], &names)); }
    for d in "0123456789abcdefABCDEFgG/:@`".chars() { for i in 0..6 {
        if ctx.failing() { return; }
        let h: String = (0..6).map(|j| if i == j { d } else { ['1', '2', '3', '4', '5', '6'][j] }).collect();
        let s = format!("\\color[HTML]{{{h}}}x");
        ctx.case(&s, || check(&l, &s, &[(Some("HTML".into()), h.clone())], &names));
    } }
    for v in 0..=260 { for i in 0..3 {
        if ctx.failing() { return; }
        let mut p = ["17".to_string(), "34".into(), "51".into()]; p[i] = v.to_string();
        let s = format!("\\color[RGB]{{{}}}x", p.join(","));
        ctx.case(&s, || check(&l, &s, &[(Some("RGB".into()), p.join(","))], &names));
    } }
    for v in 0..=1003 { for i in 0..3 {
        if ctx.failing() { return; }
        let mut p = ["0.2".to_string(), "0.4".into(), "0.6".into()]; p[i] = format!("{}.{:03}", v / 1000, v % 1000);
        let s = format!("\\color[rgb]{{{}}}x", p.join(","));
        ctx.case(&s, || check(&l, &s, &[(Some("rgb".into()), p.join(","))], &names));
    } }
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let n = if r.chance(2, 3) { 1 } else { r.range(2, 4) };
        let specs: Vec<(Option<String>, String)> = (0..n).map(|_| spec(&mut r, &list)).collect();
        let mut src = String::new();
        for (k, s) in &specs {
            let o = k.as_ref().map_or(String::new(), |k| format!("[{k}]"));
            match r.below(6) {
                0 if k.is_none() => src.push_str(&format!("\\textcolor{{{s}}}{{y}}")),
                1 => src.push_str(&format!("{{\\color{o}{{{s}}} z}}")),
                2 => src.push_str(&format!("\\frac{{\\color{o}{{{s}}} z}}{{q}}")),
                3 => src.push_str(&format!("\\left(\\color{o}{{{s}}} z\\right)")),
                4 => src.push_str(&format!("\\begin{{matrix}}a&\\color{o}{{{s}}}x\\end{{matrix}}")),
                _ => src.push_str(&format!("\\color{o}{{{s}}}x")),
            }
        }
        ctx.case(&src, || check(&l, &src, &specs, &names));
    }
}
