//! C11 and C12: histories of snippets with definitions against a model of the scoping rules that
//! expands everything to built-in commands.
use crate::{c10, generate::*};
use math_core::{LatexToMathML, MathCoreConfig, MathDisplay, MaxExpansions};
use std::collections::HashMap;
use wlib::{Ctx, Rng};

type Toks = Vec<String>;
#[derive(Clone, Debug)]
enum Meaning { Macro(usize, Toks), Alias(Box<Meaning>), Builtin(String) }
#[derive(Default)]
struct Model { config: HashMap<String, Meaning>, doc: HashMap<String, Meaning>, local: HashMap<String, Meaning>, global_group: bool, max: usize }
#[derive(Debug, PartialEq)]
enum Stop { Error(&'static str), Skip }
const BUILTINS: [&str; 9] = ["\\alpha", "\\beta", "\\gamma", "\\frac", "\\quad", "\\leq", "\\times", "\\relax", "\\infty"];

#[derive(Clone, Debug)]
enum Stmt { New(u8, String, usize, Toks), Def { global: bool, gdef: bool, name: String, n: usize, body: Toks }, Let { global: bool, eq: bool, name: String, to: String }, Use(Toks) }

impl Model {
    fn resolve(&self, n: &str) -> Option<Meaning> {
        self.local.get(n).or_else(|| self.doc.get(n)).or_else(|| self.config.get(n)).cloned()
            .or_else(|| BUILTINS.contains(&n).then(|| Meaning::Builtin(n.to_string())))
            .or_else(|| (!n.starts_with('\\')).then(|| Meaning::Builtin(n.to_string())))
    }
    fn set(&mut self, n: &str, m: Meaning, global: bool) {
        if global || self.global_group { self.doc.insert(n.into(), m); self.local.remove(n); } else { self.local.insert(n.into(), m); }
    }
    /// Everything the use of some tokens stands for, and the number of expansions.
    fn expand(&self, toks: &Toks, count: &mut usize) -> Result<Toks, Stop> {
        let mut out = vec![];
        // meanings are looked up when the macro is used, aliases keep theirs
        let mut todo: Vec<Result<String, Meaning>> = toks.iter().rev().map(|t| Ok(t.clone())).collect();
        while let Some(x) = todo.pop() {
            let m = match x {
                Ok(t) if ["{", "}", " "].contains(&t.as_str()) => { out.push(t); continue }
                Ok(t) => self.resolve(&t).ok_or(Stop::Error("unknown"))?,
                Err(m) => m,
            };
            match m {
                Meaning::Builtin(b) => out.push(b),
                Meaning::Alias(m) => { *count += 1; if *count > self.max { return Err(Stop::Error("too many")); } todo.push(Err(*m)); }
                Meaning::Macro(n, body) => {
                    *count += 1;
                    if *count > self.max { return Err(Stop::Error("too many")); }
                    let mut args: Vec<Vec<Result<String, Meaning>>> = vec![];
                    for _ in 0..n {
                        while matches!(todo.last(), Some(Ok(t)) if t == " ") { todo.pop(); }
                        let f = todo.pop().ok_or(Stop::Skip)?;
                        let mut a = vec![];
                        if matches!(&f, Ok(t) if t == "{") {
                            let mut d = 1;
                            loop { let y = todo.pop().ok_or(Stop::Skip)?; if let Ok(t) = &y { if t == "{" { d += 1 } else if t == "}" { d -= 1; if d == 0 { break } } } a.push(y); }
                            if a.is_empty() { a = vec![Ok("{".into()), Ok("}".into())]; }
                        } else if matches!(&f, Ok(t) if t == "}") { return Err(Stop::Skip) } else {
                            // an unknown name is rejected where it is read
                            if let Ok(t) = &f { if self.resolve(t).is_none() { return Err(Stop::Error("unknown")); } }
                            a.push(f);
                        }
                        // names in an argument must be known when it is read
                        for y in &a { if let Ok(t) = y && t.starts_with('\\') && self.resolve(t).is_none() { return Err(Stop::Error("unknown")); } }
                        args.push(a);
                    }
                    if body.is_empty() { out.push("{".into()); out.push("}".into()); }
                    let mut b = vec![];
                    for y in &body { match y.strip_prefix('#') { Some(k) => b.extend(args[k.parse::<usize>().unwrap() - 1].iter().cloned()), None => b.push(Ok(y.clone())) } }
                    todo.extend(b.into_iter().rev());
                    if todo.len() > 3000 || out.len() > 3000 { return Err(Stop::Skip); }
                }
            }
        }
        Ok(out)
    }
    fn run(&mut self, s: &[Stmt], count: &mut usize) -> Result<Toks, Stop> {
        self.local.clear();
        let mut out = vec![];
        for st in s {
            match st {
                Stmt::New(kind, name, n, body) => {
                    let known = self.resolve(name).is_some();
                    match (kind, known) {
                        (0, true) => return Err(Stop::Error("already defined")),
                        (1, false) => return Err(Stop::Error("not defined")),
                        (2, true) => {}
                        _ => self.set(name, Meaning::Macro(*n, body.clone()), false),
                    }
                }
                Stmt::Def { global, gdef, name, n, body } => self.set(name, Meaning::Macro(*n, body.clone()), *global || *gdef),
                Stmt::Let { global, name, to, .. } => {
                    let m = self.resolve(to).ok_or(Stop::Error("unknown"))?;
                    self.set(name, Meaning::Alias(Box::new(m)), *global);
                }
                Stmt::Use(t) => out.extend(self.expand(t, count)?),
            }
        }
        Ok(out)
    }
}
fn show(s: &[Stmt]) -> String {
    let mut o = String::new();
    for st in s {
        match st {
            Stmt::New(k, name, n, body) => {
                let c = ["\\newcommand", "\\renewcommand", "\\providecommand"][*k as usize];
                let nm = if body.len() % 2 == 0 { format!("{{{name}}}") } else { name.clone() };
                if *n == 0 { o.push_str(&format!("{c}{nm}{{{}}}", c10::show(body))) } else { o.push_str(&format!("{c}{nm}[{n}]{{{}}}", c10::show(body))) }
            }
            Stmt::Def { global, gdef, name, n, body } => {
                if *global { o.push_str("\\global"); }
                o.push_str(if *gdef { "\\gdef" } else { "\\def" });
                o.push_str(name);
                for k in 1..=*n { o.push_str(&format!("#{k}")); }
                o.push_str(&format!("{{{}}}", c10::show(body)));
            }
            Stmt::Let { global, eq, name, to } => { if *global { o.push_str("\\global"); } o.push_str(&format!("\\let{name}{}{to}", if *eq { " =" } else if to.starts_with('\\') { "" } else { " " })); if to.ends_with(|c: char| c.is_ascii_alphabetic()) && to.starts_with('\\') { o.push(' '); } }
            Stmt::Use(t) => o.push_str(&c10::show(t)),
        }
    }
    o
}
const NAMES: [&str; 7] = ["\\x", "\\y", "\\z", "\\xx", "\\alpha", "\\beta", "\\quad"];
fn tok(r: &mut Rng) -> String { r.pick(&["a", "b", "c", "A", "=", "+", ",", "\\x", "\\y", "\\z", "\\xx", "\\x", "\\y", "\\alpha", "\\beta", "\\gamma", "\\quad", "\\leq"]).to_string() }
fn body(r: &mut Rng, n: usize) -> Toks {
    let mut b: Toks = vec![];
    for _ in 0..r.below(4) {
        if n > 0 && r.chance(1, 3) { let k = r.range(1, n); if r.chance(1, 2) { b.extend(["{".into(), format!("#{k}"), "}".into()]) } else { b.push(format!("#{k}")) } }
        else { b.push(tok(r)); }
    }
    b
}
fn stmt(r: &mut Rng) -> Stmt {
    let name = r.pick(&NAMES).to_string();
    let n = if r.chance(1, 3) { r.range(1, 2) } else { 0 };
    match r.below(12) {
        0 | 1 => Stmt::New(0, name, n, body(r, n)),
        2 => Stmt::New(1, name, n, body(r, n)),
        3 => Stmt::New(2, name, n, body(r, n)),
        4 | 5 => Stmt::Def { global: r.chance(1, 3), gdef: r.chance(1, 4), name, n, body: body(r, n) },
        6 | 7 => Stmt::Let { global: r.chance(1, 3), eq: r.chance(1, 2), name, to: if r.chance(1, 8) { "q".into() } else { r.pick(&["\\x", "\\y", "\\z", "\\xx", "\\alpha", "\\beta", "\\quad", "\\leq", "\\gamma"]).to_string() } },
        _ => {
            let mut t = vec![];
            for _ in 0..r.range(1, 4) {
                t.push(tok(r));
                if r.chance(1, 3) { t.push("{".into()); t.push(tok(r)); t.push("}".into()); }
            }
            Stmt::Use(t)
        }
    }
}
fn macro_text(m: &(String, Toks)) -> (String, String) { (m.0[1..].to_string(), c10::show(&m.1)) }

/// One history; the first difference is returned.
fn history(r: &mut Rng, ctx: &mut Ctx, flat: &LatexToMathML, limit: bool) {
    let global_group = r.chance(1, 3);
    let mut config: Vec<(String, Toks)> = vec![];
    if r.chance(1, 2) {
        for n in ["\\x", "\\y", "\\alpha"] { if r.chance(1, 2) { let b = body(r, 0); config.push((n.into(), b)); } }
        // every name in a configured body must exist
        let names: Vec<String> = config.iter().map(|c| c.0.clone()).collect();
        for c in &mut config { c.1.retain(|t| !t.starts_with('\\') || BUILTINS.contains(&t.as_str()) || names.contains(t)); }
    }
    let max = if limit { r.below(12) } else { 1000 };
    let mut model = Model { global_group, max, ..Default::default() };
    for (n, b) in &config { model.config.insert(n.clone(), Meaning::Macro(0, b.clone())); }
    let cfg = MathCoreConfig { macros: config.iter().map(macro_text).collect(), global_group, max_expansions: MaxExpansions(max as u32), ..Default::default() };
    let Ok(mut conv) = LatexToMathML::new(cfg) else { panic!("configuration {config:?} rejected") };
    let mut text = format!("configured {:?} global_group={global_group} max_expansions={max}", config.iter().map(macro_text).collect::<Vec<_>>());
    for _ in 0..r.range(1, 5) {
        if r.chance(1, 12) { conv.reset_global_state(); model.doc.clear(); text.push_str("\n  reset"); }
        let mut stmts = vec![];
        for _ in 0..r.range(1, 6) { stmts.push(stmt(r)); }
        let src = show(&stmts);
        let local = r.chance(1, 5);
        // a local conversion sees no document and leaves none
        let saved = local.then(|| std::mem::take(&mut model.doc));
        let mut count = 0;
        let want = model.run(&stmts, &mut count);
        if let Some(d) = saved { model.doc = d; }
        text.push_str(&format!("\n  {}: {src}", if local { "local" } else { "global" }));
        if want == Err(Stop::Skip) { return; }
        let mut broken = false;
        ctx.case(&text, || {
            let got = if local { conv.convert_with_local_state(&src, MathDisplay::Block) } else { conv.convert_with_global_state(&src, MathDisplay::Block) }.map(|r| r.mathml);
            match (&got, &want) {
                (Err(e), Err(Stop::Error(k))) => {
                    let m = e.error_message().to_lowercase();
                    // the kind is told from the message of a plain instance of the error
                    let kind = kind_of(flat, k);
                    if m.split_whitespace().next() != kind.split_whitespace().next() && *k == "too many" { return Err(format!("error {m:?}, expected that there are too many expansions")); }
                    if *k != "too many" && m.split(' ').next() == kind_of(flat, "too many").split(' ').next() { return Err(format!("error {m:?}, expected {k}")); }
                    Ok(())
                }
                (Err(_), Err(Stop::Skip)) => Ok(()),
                (Ok(g), Err(k)) => Err(format!("gives {g}, expected an error ({k:?})")),
                (Err(e), Ok(f)) => {
                    // the expansion itself may be no formula
                    let f = c10::show(f);
                    match block(flat, &f) { Err(_) => { broken = true; Ok(()) }, Ok(w) => Err(format!("error {:?}, expected {f} = {w} after {count} expansions", e.error_message())) }
                }
                (Ok(g), Ok(f)) => {
                    let f = c10::show(f);
                    match block(flat, &f) { Err(e) => Err(format!("gives {g}, but {f} is an error ({})", e.error_message())), Ok(w) => c10::loose(g, &w).map_err(|e| format!("{e}\nexpected expansion {f}")) }
                }
            }
        });
        // what an error leaves behind isn't specified
        if want.is_err() || broken { return; }
    }
}
fn kind_of(l: &LatexToMathML, k: &str) -> String {
    let s = match k { "too many" => "\\def\\x{\\x}\\x", "already defined" => "\\newcommand\\alpha{}", "not defined" => "\\renewcommand\\nope{}", _ => "\\nope" };
    block(l, s).err().map(|e| e.error_message().to_lowercase()).unwrap_or_default()
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random histories of up to five snippets with \\newcommand, \\renewcommand, \\providecommand, \\def, \\gdef, \\let, \\global and uses, with and without configured macros, global group, local conversions and resets, against a model of the scoping rules".into();
    let flat = plain();
    // a name defined in the argument of a macro whose body uses it afterwards
    for def in ["\\def\\b{V}", "\\gdef\\b{V}", "\\newcommand{\\b}{V}", "\\newcommand\\b{V}", "\\providecommand\\b{V}", "\\let\\b=V", "\\global\\def\\b{V}"] {
        for (body, want) in [("#1\\b", "V"), ("#1a\\b", "aV"), ("#1\\b\\b", "VV"), ("a#1\\sqrt{\\b}c", "a\\sqrt{V}c")] {
            for v in ["x", "\\alpha"] {
                for group in [false, true] {
                    let s = format!("\\newcommand\\id[1]{{{body}}}\\id{{{}}}", def.replace('V', v));
                    ctx.case(&format!("{s} (unknown commands ignored, global_group={group})"), || {
                        let l = conv(MathCoreConfig { ignore_unknown_commands: true, global_group: group, ..Default::default() });
                        let w = block(&flat, &want.replace('V', v)).map_err(|e| e.error_message())?;
                        let g = block(&l, &s).map_err(|e| e.error_message())?;
                        if g == w { Ok(()) } else { Err(format!("gives {g}, expected {w}")) }
                    });
                }
            }
        }
    }
    while ctx.more() { let mut r = Rng(ctx.rng.next()); history(&mut r, ctx, &flat, false); }
}
pub fn run_c12(ctx: &mut Ctx) {
    ctx.rule = "chains, fans and aliases needing exactly the limit and one more, limits 0 to 70, several snippets in a row, built-in macros, endless macros; and random histories with small limits, against a model that counts".into();
    let flat = plain();
    let phase = ctx.slice(0.5);
    let mut n = 0u64;
    while ctx.more() && std::time::Instant::now() < phase {
        let mut r = Rng(ctx.rng.next());
        n += 1;
        let need = if n < 200 { (n % 40) as usize } else { r.below(70) };
        // a snippet that needs exactly `need` expansions
        let shape = r.below(9);
        let (pre, snippet, macros): (String, String, Vec<(String, String)>) = match shape {
            0 => (String::new(), "\\newcommand{\\x}{a}".to_string() + &"\\x ".repeat(need), vec![]),
            1 => (String::new(), "\\x ".repeat(need), vec![("x".into(), "a".into())]),
            2 => (String::new(), "\\def\\x#1{#1b}".to_string() + &"\\x{".repeat(need) + "a" + &"}".repeat(need), vec![]),
            3 => { // a chain of macros
                let nm = |k: usize| format!("\\c{}{}", (b'a' + (k / 26) as u8) as char, (b'a' + (k % 26) as u8) as char);
                let mut d = String::new();
                for k in 0..need { d.push_str(&format!("\\def{}{{{}}}", nm(k), if k == 0 { "a".into() } else { nm(k - 1) })); }
                (d.clone(), if need == 0 { "a".into() } else { d + &nm(need - 1) }, vec![])
            }
            4 => (String::new(), "\\gdef\\x{a}".to_string() + &"\\frac{\\x}{\\x}".repeat(need / 2) + if need % 2 == 1 { "\\x" } else { "" }, vec![]),
            5 => (String::new(), "\\pmod{a}".repeat(0) + &"\\x{\\y}".repeat(need / 2) + if need % 2 == 1 { "\\y" } else { "" }, vec![("x".into(), "(#1)".into()), ("y".into(), "b".into())]),
            6 => (String::new(), "\\begin{matrix}".to_string() + &"\\x&".repeat(need) + "\\end{matrix}", vec![("x".into(), "{a}".into())]),
            7 => (String::new(), "\\def\\e{}".to_string() + &"\\e ".repeat(need), vec![]),
            _ => (String::new(), "\\sqrt{".to_string() + &"\\x{}".repeat(need) + "}", vec![("x".into(), "\\alpha #1#1".into())]),
        };
        let _ = pre;
        for limit in [need, need + 1, need.saturating_sub(1), 0] {
            let text = format!("needs {need} expansions, limit {limit}, configured {macros:?}: {snippet}");
            ctx.case(&text, || {
                let cfg = MathCoreConfig { macros: macros.clone(), max_expansions: MaxExpansions(limit as u32), ..Default::default() };
                let mut l = conv(cfg);
                // the budget starts afresh with each snippet
                for round in 0..3 {
                    let g = if round == 1 { l.convert_with_global_state(&snippet, MathDisplay::Inline) } else { l.convert_with_local_state(&snippet, MathDisplay::Inline) };
                    match g {
                        Ok(_) if need > limit => return Err(format!("converted in round {round}")),
                        Err(e) if need <= limit => return Err(format!("error in round {round}: {}", e.error_message())),
                        Err(e) => { let m = e.error_message().to_lowercase(); if m.split(' ').next() != kind_of(&flat, "too many").split(' ').next() { return Err(format!("another error: {m}")); } }
                        Ok(_) => {}
                    }
                }
                let all: Vec<(&str, MathDisplay)> = vec![(snippet.as_str(), MathDisplay::Block); 2];
                for g in l.convert_all(&all) { if g.is_ok() != (need <= limit) { return Err("convert_all decides otherwise".into()); } }
                Ok(())
            });
            if ctx.failing() { return; }
        }
    }
    // endless macros end with the error, and built-in macros count
    let builtin: Vec<String> = cmds().iter().filter(|c| c.kind == "CustomCmd").map(|c| { let k = c.rest.trim_start_matches('(').chars().next().and_then(|c| c.to_digit(10)).unwrap_or(0); cs(c.name) + &"{a}".repeat(k as usize) }).collect();
    for b in &builtin {
        ctx.case(&format!("{b} with limit 0"), || {
            let full = block(&flat, b);
            let l = conv(MathCoreConfig { max_expansions: MaxExpansions(0), unicode_substitution: math_core::UnicodeSubstitution::Never, ..Default::default() });
            match (full, block(&l, b)) { (Ok(_), Ok(_)) => Err("converted".into()), _ => Ok(()) }
        });
    }
    for s in ["\\def\\x{\\x}\\x", "\\def\\x{a\\x}\\x", "\\def\\x{\\y}\\def\\y{\\x}\\x", "\\def\\x#1{\\x{#1}}\\x a", "\\def\\x#1{\\x{#1#1}}\\x a", "\\def\\x{{\\x}}\\x"] {
        for max in [0u32, 1, 5, 1000, 100_000] {
            if s.contains("{{") && max > 1000 { continue; }
            ctx.case(&format!("{s} with limit {max}"), || { let l = conv(MathCoreConfig { max_expansions: MaxExpansions(max), ..Default::default() }); if block(&l, s).is_ok() { Err("converted".into()) } else { Ok(()) } });
        }
    }
    while ctx.more() { let mut r = Rng(ctx.rng.next()); history(&mut r, ctx, &flat, true); }
}
