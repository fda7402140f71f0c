//! C05: dimensions against an independent reader of the grammar.
use crate::generate::*;
use wlib::{xml, Ctx, Rng};

/// Some((exact numeral, negative, unit))
fn reference(s: &str, comma: bool) -> Option<(String, bool, String)> {
    let b: Vec<char> = s.chars().collect();
    let n = b.len();
    if n < 2 || !b[n - 1].is_ascii() || !b[n - 2].is_ascii() { return None; }
    let unit: String = b[n - 2..].iter().collect::<String>().to_ascii_lowercase();
    if !["pt", "mm", "cm", "in", "ex", "em", "mu", "sp"].contains(&unit.as_str()) { return None; }
    let mut k = n - 2;
    while k > 0 && matches!(b[k - 1], ' ' | '\t' | '\n' | '\r' | '\x0c') { k -= 1; }
    let mut i = 0;
    let neg = k > 0 && b[0] == '-';
    if neg { i = 1; }
    let (mut dots, mut digits, mut num, mut all) = (0, 0, String::new(), String::new());
    for &c in &b[i..k] {
        match c {
            '0'..='9' => { digits += 1; num.push(c); all.push(c); }
            '.' => { dots += 1; num.push('.'); }
            ',' if comma => { dots += 1; num.push('.'); }
            _ => return None,
        }
    }
    if dots > 1 || digits == 0 { return None; }
    // digits that exceed 64 bits
    let t = all.trim_start_matches('0');
    if t.len() > 20 || t.parse::<u128>().unwrap_or(0) > u64::MAX as u128 { return None; }
    Some((num, neg, unit))
}
fn factor(u: &str) -> (f64, &'static str) {
    match u { "pt" => (0.1, "rem"), "mm" => (0.28453, "rem"), "cm" => (2.8453, "rem"), "in" => (7.2, "rem"), "ex" => (1.0, "ex"), "em" => (1.0, "em"), "mu" => (1.0 / 18.0, "em"), _ => (0.1 / 65536.0, "rem") }
}
fn value_ok(shown: &str, num: &str, neg: bool, unit: &str) -> Result<(), String> {
    let (f, suffix) = factor(unit);
    let exact: f64 = (if num.starts_with('.') { format!("0{num}") } else { num.to_string() }).parse().map_err(|_| "bad numeral")?;
    let want = if neg { -exact * f } else { exact * f };
    let (txt, has) = match shown.strip_suffix(suffix) { Some(t) => (t, true), None => (shown, false) };
    let got: f64 = txt.parse().map_err(|_| format!("{shown:?} isn't a length in {suffix}"))?;
    let got32: f32 = txt.parse().unwrap();
    if !has && got != 0.0 { return Err(format!("{shown:?} should be in {suffix}")); }
    let tol = if f == 1.0 {
        let g = got32.abs();
        let ulp = (g.next_up() - g) as f64;
        0.500001 * ulp
    } else { want.abs() * 4.0 / 16777216.0 + 1e-44 };
    let diff = (got32 as f64 - want).abs();
    if diff > tol { return Err(format!("written as {shown:?}, but the value is {want}")); }
    if want != 0.0 && got != 0.0 && (got < 0.0) != (want < 0.0) { return Err(format!("sign of {shown:?}")); }
    Ok(())
}
fn numeral(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 => { for _ in 0..r.range(1, 25) { s.push(char::from(b'0' + r.below(10) as u8)); } }
        1 => { for _ in 0..r.range(15, 22) { s.push(char::from(b'0' + r.below(10) as u8)); } let k = r.below(s.len()); s.insert(k, '.'); }
        2 => s = r.pick(&["18446744073709551615", "18446744073709551616", "18446744073709551620", "1844674407370955161.6", "0.18446744073709551615", "00000000000000000000001", "0.0000000000000000000000000000001", "16777217", "9999999999999999999", "99999999999999999999", "184467440737095516150", "36893488147419103232", "1", "0", ".", "", "0.0", "-0", "00.00", "4294967296", "4294967295.5", "65536"]).to_string(),
        3 => { for _ in 0..r.range(0, 6) { s.push(*r.pick(&['0', '1', '9', '.', '-', '+', ',', ' ', 'e', 'x'])); } }
        _ => { for _ in 0..r.range(0, 5) { s.push(char::from(b'0' + r.below(10) as u8)); } if r.chance(1, 2) { s.push('.'); for _ in 0..r.range(0, 6) { s.push(char::from(b'0' + r.below(10) as u8)); } } }
    }
    if r.chance(1, 4) { s.insert(0, '-'); }
    s
}
fn unit(r: &mut Rng) -> String {
    let u = if r.chance(1, 10) { *r.pick(&["e", "", "pc", "bp", "emm", "e m", "px", "ee", "mue", "pt", "m", "P t", "dd", "cc", "rem", "1", "mq"]) } else { *r.pick(&["pt", "mm", "cm", "in", "ex", "em", "mu", "sp"]) };
    u.chars().map(|c| if r.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect()
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random and boundary numerals with every unit and letter case in every command that takes a dimension; accepted or rejected, and the value to single precision, against an independent reader".into();
    let l = plain();
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let blank = *r.pick(&["", "", "", " ", "  ", "\n"]);
        let d = format!("{}{}{}", numeral(&mut r), blank, unit(&mut r));
        let (pre, post) = if r.chance(1, 6) { (" ", " ") } else { ("", "") };
        for (k, cmd) in ["hspace", "mspace", "genfrac", "raisebox", "kern", "mkern", "hskip", "mskip"].iter().enumerate() {
            if r.chance(1, 2) { continue; }
            let bare = k >= 4;
            let math = matches!(*cmd, "mspace" | "mkern" | "mskip");
            let s = match *cmd {
                "genfrac" => format!("\\genfrac{{}}{{}}{{{pre}{d}{post}}}{{}}{{a}}{{b}}"),
                "raisebox" => format!("\\raisebox{{{d}}}{{a}}"),
                _ if bare => format!("\\{cmd}{pre}{d}"),
                _ => format!("\\{cmd}{{{pre}{d}{post}}}"),
            };
            ctx.case(&s, || {
                let out = block(&l, &s);
                let want = if bare { bare_reference(&d) } else { let t = if *cmd == "raisebox" { d.as_str() } else { d.trim_matches([' ', '\n', '\t']) }; reference(t, false) };
                let want = match want {
                    Some((n, neg, u)) if *cmd == "genfrac" || (u == "mu") == math => Some((n, neg, u)),
                    _ => None,
                };
                match (out, want) {
                    (Err(_), None) => Ok(()),
                    (Ok(m), None) => {
                        // an empty thickness is the default one
                        if *cmd == "genfrac" && d.trim().is_empty() { return Ok(()); }
                        Err(format!("accepted a malformed dimension: {m}"))
                    }
                    (Err(e), Some(_)) => Err(format!("rejected a valid dimension: {}", e.error_message())),
                    (Ok(m), Some((n, neg, u))) => {
                        let e = xml::parse(&m)?;
                        let shown = match *cmd {
                            "genfrac" => e.find_all("mfrac").first().and_then(|f| f.attr("linethickness")).map(str::to_string),
                            "raisebox" => match e.find_all("mpadded").first() { Some(p) => p.attr("voffset").map(str::to_string), None => Some("0".into()) },
                            _ => {
                                let sp = e.find_all("mspace");
                                if sp.len() != 1 { return Err(format!("{} spaces: {m}", sp.len())); }
                                let a = sp[0];
                                if let (Some(w), Some(st)) = (a.attr("width"), a.attr("style")) { if st.trim_start_matches("width:").trim_end_matches(';') != w { return Err(format!("width and style differ: {m}")); } }
                                match a.attr("width") { Some(w) => Some(w.to_string()), None => a.attr("style").and_then(|s| s.strip_prefix("margin-left:")).map(|s| s.trim_end_matches(';').to_string()) }
                            }
                        };
                        let Some(shown) = shown else { return Err(format!("no length in {m}")) };
                        value_ok(&shown, &n, neg, &u).map_err(|e| format!("{e}: {m}"))
                    }
                }
            });
        }
    }
}
fn bare_reference(d: &str) -> Option<(String, bool, String)> {
    // sign, blanks, numeral, blanks, unit of two adjacent letters; anything more follows the command
    let mut c: Vec<char> = d.chars().collect();
    let blank = |c: &Vec<char>| c.iter().take_while(|c| c.is_ascii_whitespace()).count();
    let k = blank(&c); c.drain(..k);
    let mut neg = false;
    if matches!(c.first(), Some('+' | '-')) { neg = c[0] == '-'; c.remove(0); }
    let k = blank(&c); c.drain(..k);
    let k = c.iter().take_while(|c| matches!(c, '0'..='9' | '.' | ',')).count();
    let num: String = c.drain(..k).map(|c| if c == ',' { '.' } else { c }).collect();
    let k = blank(&c); c.drain(..k);
    if c.len() < 2 || !c[0].is_ascii_alphabetic() || !c[1].is_ascii_alphabetic() { return None; }
    let u: String = c[..2].iter().collect();
    if num.is_empty() { return None; }
    // what follows must convert by itself; only text that can't fail is generated
    reference(&format!("{num}{u}"), false).map(|(n, _, u)| (n, neg, u))
}
