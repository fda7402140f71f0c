use crate::{html_entities::replace_html_entities, replace::Replacer};
use math_core::{LatexToMathML, MathCoreConfig, MathDisplay};
use std::cell::Cell;
use std::io::Write;
use wlib::{Ctx, Rng};

/// C08's reading of references.
pub fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(a) = rest.find('&') {
        out.push_str(&rest[..a]);
        rest = &rest[a..];
        let Some(e) = rest.find(';') else { break };
        out.push_str(match &rest[..=e] {
            "&#34;" | "&quot;" => "\"", "&#38;" | "&amp;" => "&", "&#39;" | "&apos;" => "'", "&#60;" | "&lt;" => "<", "&#62;" | "&gt;" => ">", other => other,
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    out
}

#[derive(Debug, Clone, PartialEq)]
enum Bad { Unclosed(usize), Nested(usize), Mismatched(usize, usize), Latex(usize) }
type Pair = (String, String);

/// Earliest occurrence in `s`; block wins a tie. Compared byte by byte.
fn first(s: &str, inl: &str, blk: &str, esc: bool) -> Option<(bool, usize)> {
    let b = s.as_bytes();
    for p in 0..b.len() {
        if esc && p > 0 && b[p - 1] == b'\\' { continue; }
        if b[p..].starts_with(blk.as_bytes()) { return Some((true, p)); }
        if b[p..].starts_with(inl.as_bytes()) { return Some((false, p)); }
    }
    None
}
/// What the property says: the calls in order, the output pieces.
fn reference(doc: &str, inl: &Pair, blk: &Pair, esc: bool, fail_at: usize) -> (Vec<(String, bool)>, Result<Vec<(bool, String)>, Bad>) {
    let (mut calls, mut out, mut pos) = (vec![], vec![], 0);
    loop {
        let Some((ob, i)) = first(&doc[pos..], &inl.0, &blk.0, esc) else { out.push((false, doc[pos..].to_string())); return (calls, Ok(out)) };
        let open = pos + i;
        out.push((false, doc[pos..open].to_string()));
        let start = open + if ob { blk.0.len() } else { inl.0.len() };
        let Some((cb, j)) = first(&doc[start..], &inl.1, &blk.1, esc) else { return (calls, Err(Bad::Unclosed(open))) };
        let end = start + j;
        if inl.1 != blk.1 && ob != cb { return (calls, Err(Bad::Mismatched(open, end))); }
        let content = &doc[start..end];
        if let Some((_, k)) = first(content, &inl.0, &blk.0, esc) { return (calls, Err(Bad::Nested(start + k))); }
        let d = decode(content);
        calls.push((d.clone(), ob));
        if calls.len() == fail_at { return (calls, Err(Bad::Latex(start))); }
        out.push((true, format!("\u{1}{}{}\u{2}", if ob { "B" } else { "I" }, d)));
        pos = end + if cb { blk.1.len() } else { inl.1.len() };
    }
}
/// One plus the line breaks before, one plus the characters since the last of them.
fn line_col(doc: &str, pos: usize) -> (usize, usize) {
    let before = &doc[..pos];
    let line = 1 + before.matches('\n').count();
    (line, 1 + before.rsplit('\n').next().unwrap().chars().count())
}
fn message(doc: &str, b: &Bad) -> String {
    match b {
        Bad::Unclosed(p) => { let (l, c) = line_col(doc, *p); format!("Unclosed delimiter on line {l}, column {c}.") }
        Bad::Nested(p) => { let (l, c) = line_col(doc, *p); format!("Nested delimiters are not allowed (on line {l}, column {c}).") }
        Bad::Mismatched(a, e) => { let ((l, c), (m, d)) = (line_col(doc, *a), line_col(doc, *e)); format!("Mismatched delimiters: opening at line {l}, column {c}, closing at line {m}, column {d}.") }
        Bad::Latex(_) => String::new(),
    }
}
/// The positions a message names must be right; its wording is free.
fn same_message(got: &str, want: &str) -> bool {
    let nums = |s: &str| s.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect::<Vec<_>>();
    nums(got) == nums(want)
}

const DELIMS: [((&str, &str), (&str, &str)); 16] = [
    (("$", "$"), ("$$", "$$")), (("\\(", "\\)"), ("\\[", "\\]")), (("$", "$"), ("\\[", "\\]")), (("\\(", "\\)"), ("$$", "$$")),
    (("<span class=\"math inline\">", "</span>"), ("<span class=\"math block\">", "</span>")), (("ü(", "ü)"), ("ü[", "ü]")), (("|", "|"), ("||", "||")),
    (("$$", "$$"), ("$", "$")), (("é", "é"), ("éé", "éé")), (("aab", "x"), ("ab", "y")), (("aba", "aba"), ("abaaba", "abaaba")), (("{", "}"), ("{{", "}}")),
    (("%", "%"), ("%", "%")), (("<m>", "</m>"), ("<md>", "</md>")), (("a", "b"), ("aa", "b")), (("👍", "👎"), ("👍👍", "👎👎")),
];
fn doc(r: &mut Rng, inl: &Pair, blk: &Pair, closed: bool) -> String {
    let mut s = String::new();
    let text = ["a", "b", " ", "\n", "é", "日本", "👍", "\\", "\\\\", "&", ";", "&lt;", "&amp;lt;", "&#38;", "<", ">", "x = 1", "\r\n", "\t", "ab", "aa", "$", "(", ")", "[", "{"];
    let n = r.range(0, 8);
    let filler = |r: &mut Rng, s: &mut String| {
        if r.chance(1, 10) {
            // near the edges of a doubling window
            let k = *r.pick(&[1usize, 511, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 2045, 2047, 2048, 2049, 3071, 3072, 4095, 4096, 8191, 8192]);
            let k = k.saturating_sub(if r.chance(1, 2) { s.len() } else { r.below(8) });
            let c = *r.pick(&["q", "q", "é", "\n", "日"]);
            s.extend(std::iter::repeat_n(c, k / c.len()));
            s.extend(std::iter::repeat_n("q", k % c.len()));
        }
        for _ in 0..r.below(4) { s.push_str(r.pick(&text)); }
    };
    for _ in 0..n {
        filler(r, &mut s);
        let d = if r.chance(1, 2) { inl } else { blk };
        if closed || r.chance(3, 4) {
            s.push_str(&d.0);
            if r.chance(1, 6) { filler(r, &mut s); } else { for _ in 0..r.below(5) { s.push_str(r.pick(&["x", "a+b", "&lt;", "&amp;", "&", ";", "&#60;", "&gt", "é", "\\alpha ", "&quot;", "\\", "\n", "&apos;&#39;&#34;&#62;"])); } }
            s.push_str(&d.1);
        } else {
            s.push_str(match r.below(6) { 0 => &inl.0, 1 => &inl.1, 2 => &blk.0, 3 => &blk.1, 4 => "\\", _ => "" });
            if r.chance(1, 2) { s.push_str(match r.below(6) { 0 => &inl.0, 1 => &inl.1, 2 => &blk.0, 3 => &blk.1, 4 => "\\", _ => "" }); }
        }
    }
    filler(r, &mut s);
    s
}
fn some_error() -> Box<math_core::LatexError> {
    LatexToMathML::new(MathCoreConfig::default()).unwrap().convert_with_local_state("\\left", MathDisplay::Inline).err().unwrap()
}
/// C09 only asks whether the printed place is the place of the error the reference finds too.
static PLACES_ONLY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn places_only() -> bool { PLACES_ONLY.load(std::sync::atomic::Ordering::Relaxed) }
fn check(text: &str, inl: &Pair, blk: &Pair, esc: bool, fail_at: usize, rep: &mut Replacer) -> Result<(), String> {
    let (want_calls, want) = reference(text, inl, blk, esc, fail_at);
    let mut calls: Vec<(String, bool)> = vec![];
    let count = Cell::new(0);
    let got = rep.replace(text, &mut calls, |calls, out, latex, mode| {
        count.set(count.get() + 1);
        let b = matches!(mode, MathDisplay::Block);
        calls.push((latex.to_string(), b));
        if count.get() == fail_at { return Err(some_error()); }
        out.push_str(&format!("\u{1}{}{latex}\u{2}", if b { "B" } else { "I" }));
        Ok(())
    }).map_err(|e| if matches!(want, Err(Bad::Latex(_))) { String::new() } else { e.to_string() });
    if places_only() {
        if let (Err(m), Err(b)) = (&got, &want) && calls == want_calls {
            let w = message(text, b);
            if m.split(' ').next() == w.split(' ').next() && !same_message(m, &w) { return Err(format!("message {m:?}, expected {w:?}")) }
        }
        return Ok(());
    }
    if calls != want_calls { return Err(format!("converted {calls:?}, expected {want_calls:?}")); }
    match (got, want) {
        (Ok(s), Ok(p)) => { let w: String = p.iter().map(|x| x.1.as_str()).collect(); if s != w { return Err(format!("output {s:?}, expected {w:?}")) } }
        (Ok(_), Err(b)) => return Err(format!("accepted, expected {b:?}")),
        (Err(m), Ok(_)) => return Err(format!("rejected with {m:?}")),
        (Err(_), Err(Bad::Latex(_))) => {}
        (Err(m), Err(b)) => { let w = message(text, &b); if !same_message(&m, &w) { return Err(format!("message {m:?}, expected {w:?}")) } }
    }
    Ok(())
}
fn name(text: &str, inl: &Pair, blk: &Pair, esc: bool, fail_at: usize) -> String {
    format!("inline={inl:?} block={blk:?} ignore_escaped={esc} failing_formula={fail_at} document={text:?}")
}
fn owned(d: &((&str, &str), (&str, &str))) -> (Pair, Pair) { ((d.0.0.into(), d.0.1.into()), (d.1.0.into(), d.1.1.into())) }

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "documents of delimiters, text, escapes and fillers around the doubling window for 16 fixed and random delimiter pairs, all short documents over a small alphabet, against a byte-by-byte reference; the built mathcore binary on whole documents".into();
    PLACES_ONLY.store(ctx.prop == "C09", std::sync::atomic::Ordering::Relaxed);
    let cli = if places_only() { None } else { build_cli() };
    // every short document
    let pieces: [&[&str]; 2] = [&["$", "\\", "x", "$$", "\n"], &["\\(", "\\)", "\\[", "\\]", "\\", "é"]];
    for (k, ps) in pieces.iter().enumerate() {
        let (inl, blk) = owned(&DELIMS[k]);
        for esc in [false, true] {
            let mut rep = Replacer::new((&inl.0, &inl.1), (&blk.0, &blk.1), esc);
            for len in 0..=5u32 {
                for mut i in 0..ps.len().pow(len) {
                    let mut s = String::new();
                    for _ in 0..len { s.push_str(ps[i % ps.len()]); i /= ps.len(); }
                    if ctx.failing() { return; }
                    ctx.case(&name(&s, &inl, &blk, esc, 0), || check(&s, &inl, &blk, esc, 0, &mut rep));
                }
            }
        }
    }
    // the window: a delimiter at every place around its edges
    for d in &DELIMS[..7] {
        let (inl, blk) = owned(d);
        let mut rep = Replacer::new((&inl.0, &inl.1), (&blk.0, &blk.1), false);
        for w in [1024usize, 2048, 4096] {
            for k in w - 30..w + 3 {
                for (o, c) in [&inl, &blk] {
                    let s = format!("{}{o}x{c}y", "q".repeat(k));
                    let t = format!("{o}{}{c}y", "q".repeat(k));
                    for s in [s, t] { if ctx.failing() { return; } ctx.case(&name(&s, &inl, &blk, false, 0), || check(&s, &inl, &blk, false, 0, &mut rep)); }
                }
            }
        }
    }
    let mut n = 0u64;
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let (inl, blk) = if r.chance(1, 8) {
            let mut w = || { let n = r.range(1, 3); (0..n).map(|_| *r.pick(&["a", "b", "é", "[", "ab"])).collect::<String>() };
            ((w(), w()), (w(), w()))
        } else { owned(r.pick(&DELIMS)) };
        let esc = r.chance(1, 3);
        let mut rep = Replacer::new((&inl.0, &inl.1), (&blk.0, &blk.1), esc);
        // one replacer for several documents, as the tool does for several files
        for _ in 0..4 {
            let text = doc(&mut r, &inl, &blk, false);
            let fail_at = if r.chance(1, 6) { r.range(1, 3) } else { 0 };
            if ctx.failing() { return; }
            ctx.case(&name(&text, &inl, &blk, esc, fail_at), || check(&text, &inl, &blk, esc, fail_at, &mut rep));
        }
        n += 1;
        if n % 64 == 0 && let Some(cli) = &cli {
            let text = doc(&mut r, &inl, &blk, true);
            ctx.case(&format!("mathcore binary, {}", name(&text, &inl, &blk, esc, 0)), || end_to_end(cli, &text, &inl, &blk, esc));
        }
    }
}
/// The real binary, built from /repo's working tree.
fn build_cli() -> Option<std::path::PathBuf> {
    let target = std::env::current_exe().ok()?.parent()?.join("cli");
    let ok = std::process::Command::new("cargo").args(["build", "--release", "--offline", "--locked", "-q", "--manifest-path", "/repo/Cargo.toml", "-p", "math-core-cli", "--target-dir"])
        .arg(&target).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok()?;
    let p = target.join("release/mathcore");
    (ok.success() && p.exists()).then_some(p)
}
fn end_to_end(cli: &std::path::Path, text: &str, inl: &Pair, blk: &Pair, esc: bool) -> Result<(), String> {
    let mut c = std::process::Command::new(cli);
    c.current_dir("/").arg("-").arg("--continue-on-error").arg(format!("--inline-open={}", inl.0)).arg(format!("--inline-close={}", inl.1)).arg(format!("--block-open={}", blk.0)).arg(format!("--block-close={}", blk.1));
    if esc { c.arg("--ignore-escaped-delim"); }
    let mut ch = c.stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut i = ch.stdin.take().unwrap();
    let t = text.to_string();
    let h = std::thread::spawn(move || { let _ = i.write_all(t.as_bytes()); });
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    let _ = h.join();
    let got = String::from_utf8(o.stdout).map_err(|_| "the output isn't UTF-8")?;
    let (calls, want) = reference(text, inl, blk, esc, 0);
    match want {
        Err(b) => {
            if o.status.success() { return Err(format!("the tool succeeded, expected {b:?}")); }
            let m = String::from_utf8_lossy(&o.stderr);
            let w = message(text, &b);
            if !m.contains(&w) && !same_message(&m, &w) { return Err(format!("the tool said {m:?}, expected {w:?}")); }
        }
        Ok(p) => {
            if !o.status.success() { return Err(format!("the tool failed: {}", String::from_utf8_lossy(&o.stderr))); }
            let mut conv: LatexToMathML = LatexToMathML::new(MathCoreConfig::default()).map_err(|_| "config")?;
            let mut k = 0;
            let mut w = String::new();
            for (f, s) in p {
                if f {
                    let (latex, b) = &calls[k];
                    k += 1;
                    let d = if *b { MathDisplay::Block } else { MathDisplay::Inline };
                    w.push_str(&match conv.convert_with_global_state(latex, d) { Ok(r) => r.mathml, Err(e) => e.to_html(latex, d, None) });
                } else { w.push_str(&s); }
            }
            w.push('\n');
            if got != w { return Err(format!("the tool wrote {got:?}, expected {w:?}")); }
        }
    }
    Ok(())
}
pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "all short texts over `&`, `;`, reference names and fragments, and random longer ones, decoded with one reused buffer, against an independent reader".into();
    let mut buf = String::new();
    let ps = ["&", ";", "amp", "#38", "lt", "x", "&lt;", "é", "#", "&#34;"];
    for len in 0..=5u32 {
        for mut i in 0..ps.len().pow(len) {
            let mut s = String::new();
            for _ in 0..len { s.push_str(ps[i % ps.len()]); i /= ps.len(); }
            if ctx.failing() { return; }
            one(ctx, &s, &mut buf);
        }
    }
    // every name of up to three bytes, and every number
    for a in 0x20..0x7fu8 { for b in 0x20..0x7fu8 { let s = format!("&{}{};", a as char, b as char); one(ctx, &s, &mut buf); if ctx.failing() { return; } } }
    for n in 0..2000 { for f in [format!("&#{n};"), format!("&#0{n};"), format!("&#x{n:x};"), format!("&#{n}"), format!("&# {n};")] { one(ctx, &f, &mut buf); if ctx.failing() { return; } } }
    let names = ["#34", "quot", "#38", "amp", "#39", "apos", "#60", "lt", "#62", "gt", "AMP", "Lt", "LT", "nbsp", "#034", "#x26", "dollar", "", "quo", "quott", "ap", "#3", "#3 4"];
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut s = String::new();
        for _ in 0..r.below(12) {
            match r.below(6) {
                0 => { s.push('&'); s.push_str(r.pick(&names)); if r.chance(5, 6) { s.push(';'); } }
                1 => { s.push_str("&amp;"); s.push_str(r.pick(&names)); s.push(';'); }
                2 => s.push_str(r.pick(&["&", ";", "&&", "&;", ";;", "& ;", "&\n;"])),
                3 => { let n = r.below(40); for _ in 0..n { s.push(*r.pick(&['x', 'é', '日', ' '])); } }
                4 => { let n = if r.chance(1, 10) { r.below(3000) } else { 3 }; for _ in 0..n { s.push('y'); } }
                _ => s.push_str(r.pick(&["\\alpha", "{", "}", "<", ">", "\"", "'", "👍", "\u{0}"])),
            }
        }
        one(ctx, &s, &mut buf);
        // and through the replacer
        if r.chance(1, 4) && !s.contains("<<") && !s.contains(">>") {
            let (inl, blk) = (("<<".to_string(), ">>".to_string()), ("<<<".to_string(), ">>>".to_string()));
            let d = format!("t<<{s} >>u<<{s} >>");
            let mut rep = Replacer::new((&inl.0, &inl.1), (&blk.0, &blk.1), false);
            ctx.case(&name(&d, &inl, &blk, false, 0), || check(&d, &inl, &blk, false, 0, &mut rep));
        }
    }
}
fn one(ctx: &mut Ctx, s: &str, buf: &mut String) {
    let mut b2 = std::mem::take(buf);
    ctx.case(s, || {
        let got = replace_html_entities(&mut b2, s);
        let want = decode(s);
        if got != want { return Err(format!("decoded to {got:?}, expected {want:?}")); }
        Ok(())
    });
    *buf = b2;
}
