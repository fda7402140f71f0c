//! An independent model of table-like environments (C06, C18).
use crate::generate::*;
use std::collections::BTreeMap;
use wlib::xml::El;
use wlib::{xml, Ctx, Rng};

pub type Css = BTreeMap<String, String>;
pub fn css(s: &str) -> Css {
    s.split(';').filter_map(|d| d.split_once(':')).map(|(k, v)| (k.trim().to_string(), v.split_whitespace().collect::<Vec<_>>().join(" "))).collect()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Line { Solid, Dashed }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry { Col(char, Option<Line>), Only(Line) }
#[derive(Clone, Debug, PartialEq)]
pub struct Spec { pub left: Option<Line>, pub entries: Vec<Entry> }

/// The grammar of column specifications, read independently.
pub fn read_spec(s: &str) -> Option<Spec> {
    let mut items = vec![];
    for c in s.chars() {
        match c {
            'l' | 'c' | 'r' | '|' | ':' => items.push(c),
            ' ' | '\t' | '\n' | '\r' | '\x0c' => {}
            _ => return None,
        }
    }
    if !items.iter().any(|c| c.is_alphabetic()) { return None; }
    let line = |c: char| if c == '|' { Line::Solid } else { Line::Dashed };
    let mut left = None;
    let mut entries = vec![];
    let mut i = 0;
    if !items[0].is_alphabetic() { left = Some(line(items[0])); i = 1; }
    while i < items.len() {
        if items[i].is_alphabetic() {
            let r = items.get(i + 1).filter(|c| !c.is_alphabetic()).map(|c| line(*c));
            entries.push(Entry::Col(items[i], r));
            i += if r.is_some() { 2 } else { 1 };
        } else { entries.push(Entry::Only(line(items[i]))); i += 1; }
    }
    Some(Spec { left, entries })
}
fn border(l: Line) -> String { format!("0.05em {} currentcolor", if l == Line::Solid { "solid" } else { "dashed" }) }
fn put(m: &mut Css, k: &str, v: &str) { m.insert(k.into(), v.into()); }
fn aligned(m: &mut Css, c: char) {
    match c { 'l' => { put(m, "text-align", "left"); put(m, "justify-items", "start"); } 'r' => { put(m, "text-align", "right"); put(m, "justify-items", "end"); } _ => {} }
}

#[derive(Debug)]
pub struct Table { pub env: &'static str, pub spec: Option<(String, Spec)>, pub top: Option<Line>, pub rows: Vec<Row> }
#[derive(Debug)]
pub struct Row { pub top: Option<Line>, pub cells: Vec<Vec<Item>> }
#[derive(Debug)]
pub enum Item { Mark(usize), Junk(&'static str), Tab(Table), Wrapped(&'static str, Table, &'static str) }

pub const NUMBERED: [&str; 7] = ["align", "align*", "equation", "equation*", "gather", "gather*", "multline"];
fn hlines(e: &str) -> bool { e.contains("array") || e.contains("atrix") }
fn columns(e: &str) -> bool { !matches!(e, "equation" | "equation*" | "gather" | "gather*" | "gathered" | "multline") }

pub fn random_spec(r: &mut Rng) -> String {
    loop {
        let n = match r.below(4) { 0 => r.range(1, 2), 1 | 2 => r.range(2, 8), _ => r.range(5, 20) };
        let mut s: String = (0..n).map(|_| *r.pick(&['l', 'c', 'r', 'c', '|', '|', ':', ' '])).collect();
        if r.chance(1, 3) { s.insert_str(0, r.pick(&["|", "||", ":", ": |", "|:|"])); }
        if r.chance(1, 3) { s.push_str(r.pick(&["|", "||", ":", ": |", " "])); }
        if read_spec(&s).is_some() { return s; }
    }
}
pub fn random_table(r: &mut Rng, depth: usize, mark: &mut usize, top_level: bool) -> Table {
    let env = loop { let e = *r.pick(&TABLES); if top_level || !NUMBERED.contains(&e) { break e; } };
    let spec = if env.contains("array") { let s = random_spec(r); let p = read_spec(&s).unwrap(); Some((s, p)) } else { None };
    let mut t = Table { env, spec, top: None, rows: vec![] };
    let line = |r: &mut Rng| if r.chance(1, 2) { Line::Solid } else { Line::Dashed };
    if hlines(env) && r.chance(1, 3) { t.top = Some(line(r)); }
    let nr = if matches!(env, "equation" | "equation*") { 1 } else { match r.below(8) { 0 => 1, 7 => r.range(4, 30), _ => r.range(1, 4) } };
    for i in 0..nr {
        let mut row = Row { top: None, cells: vec![] };
        if i > 0 && hlines(env) && r.chance(1, 3) { row.top = Some(line(r)); }
        let nc = if columns(env) { match r.below(8) { 0 => 1, 7 => r.range(4, 24), _ => r.range(1, 5) } } else { 1 };
        for _ in 0..nc {
            let mut cell = vec![];
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
                match r.below(12) {
                    0 if depth > 0 && nr * nc < 30 => cell.push(Item::Tab(random_table(r, depth - 1, mark, false))),
                    1 if depth > 0 && nr * nc < 30 => {
                        let (a, b) = *r.pick(&[("{", "}"), ("\\frac{1}{", "}"), ("\\left(", "\\right)"), ("\\sqrt{", "}"), ("x^{", "}"), ("\\mathbf{", "}")]);
                        cell.push(Item::Wrapped(a, random_table(r, depth - 1, mark, false), b));
                    }
                    2 | 3 => cell.push(Item::Junk(*r.pick(&["+", "=", "x^2", "\\alpha ", "\\frac12", "{y}", "\\left(z\\right)", "\\text{}", "\\mathbf a", "\\color{red}", "\\displaystyle ", "{}", "\\,", "\\sum_i", "\\%", "\\&", "'"]))),
                    _ => { *mark += 1; cell.push(Item::Mark(*mark)); }
                }
            }
            // (a bare alternative for the next `'`, which needs something before it)
            row.cells.push(cell);
        }
        t.rows.push(row);
    }
    t
}
pub fn source(t: &Table, r: &mut Rng, out: &mut String) {
    let ws = |r: &mut Rng| *r.pick(&["", "", "", " ", "\n", " % c & \\\\ d\n  "]);
    out.push_str(&format!("\\begin{{{}}}", t.env));
    if let Some((s, _)) = &t.spec { out.push_str(&format!("{{{s}}}")); }
    let hl = |l: Line| if l == Line::Solid { "\\hline " } else { "\\hdashline " };
    out.push_str(ws(r));
    if let Some(l) = t.top { out.push_str(hl(l)); }
    for (i, row) in t.rows.iter().enumerate() {
        if i > 0 { out.push_str(ws(r)); out.push_str(if r.chance(1, 8) { "\\newline " } else { "\\\\" }); out.push_str(ws(r)); if let Some(l) = row.top { out.push_str(hl(l)); } }
        for (j, cell) in row.cells.iter().enumerate() {
            if j > 0 { out.push_str(ws(r)); out.push('&'); out.push_str(ws(r)); }
            for it in cell {
                match it {
                    Item::Mark(n) => out.push_str(&format!("\\text{{n{n}}}")),
                    Item::Junk(j) => { if *j == "'" { out.push('q'); } out.push_str(j); }
                    Item::Tab(t) => source(t, r, out),
                    Item::Wrapped(a, t, b) => { out.push_str(a); source(t, r, out); out.push_str(b); }
                }
            }
        }
    }
    out.push_str(ws(r));
    out.push_str(&format!("\\end{{{}}}", t.env));
}
fn own<'a>(e: &'a El, marks: &mut Vec<String>, tabs: &mut Vec<&'a El>) {
    for k in e.els() {
        if k.name == "mtable" { tabs.push(k); }
        else if k.name == "mtext" { let t = k.text(); if t.starts_with('n') { marks.push(t); } }
        else { own(k, marks, tabs); }
    }
}
/// The styles of the cells of one row: one per cell of the source, plus line-only cells.
fn row_cells(t: &Table, i: usize) -> Vec<(Css, Option<usize>)> {
    let row = &t.rows[i];
    let mut out = vec![];
    let mut base = Css::new();
    if let Some(l) = row.top { put(&mut base, "border-top", &border(l)); }
    let mut e = 0;
    for j in 0..row.cells.len() {
        let mut m = base.clone();
        match t.env {
            "array" | "darray" | "subarray" => {
                let sub = t.env == "subarray";
                let sp = &t.spec.as_ref().unwrap().1;
                let pad = |m: &mut Css| if sub { put(m, "padding-top", "0"); put(m, "padding-bottom", "0"); };
                while let Some(Entry::Only(l)) = sp.entries.get(e) {
                    let mut o = base.clone();
                    put(&mut o, "border-right", &border(*l));
                    put(&mut o, "padding-left", "0.1em");
                    put(&mut o, "padding-right", "0.1em");
                    pad(&mut o);
                    out.push((o, None));
                    e += 1;
                }
                if let Some(Entry::Col(c, b)) = sp.entries.get(e) { aligned(&mut m, *c); if let Some(b) = b { put(&mut m, "border-right", &border(*b)); } }
                e += 1;
                pad(&mut m);
            }
            "cases" | "rcases" | "dcases" | "drcases" => { aligned(&mut m, 'l'); put(&mut m, "padding-right", "0"); if j % 2 == 1 { put(&mut m, "padding-left", "1em"); } }
            "align" | "align*" | "aligned" => if j % 2 == 0 { aligned(&mut m, 'r'); put(&mut m, "padding-right", "0"); } else { aligned(&mut m, 'l'); put(&mut m, "padding-left", "0"); },
            "multline" => if i == 0 { aligned(&mut m, 'l') } else if i + 1 == t.rows.len() { aligned(&mut m, 'r') },
            _ => {}
        }
        out.push((m, Some(j)));
    }
    out
}
pub fn compare(t: &Table, e: &El) -> Result<(), String> {
    let disp = match t.env { "array" | "cases" | "rcases" | "matrix" | "bmatrix" | "Bmatrix" | "pmatrix" | "vmatrix" | "Vmatrix" => ("false", "0"), "subarray" => ("false", "1"), _ => ("true", "0") };
    if (e.attr("displaystyle"), e.attr("scriptlevel")) != (Some(disp.0), Some(disp.1)) { return Err(format!("{}: style of the table is {:?} {:?}", t.env, e.attr("displaystyle"), e.attr("scriptlevel"))); }
    let st = css(e.attr("style").unwrap_or(""));
    let wl = t.spec.as_ref().and_then(|s| s.1.left).map(border);
    if st.get("border-left") != wl.as_ref() { return Err(format!("{}: left border of the table {:?} instead of {wl:?}", t.env, st.get("border-left"))); }
    let wt = t.top.map(border);
    if st.get("border-top") != wt.as_ref() { return Err(format!("{}: top border of the table {:?} instead of {wt:?}", t.env, st.get("border-top"))); }
    let rows = e.els();
    if rows.iter().any(|r| r.name != "mtr") { return Err("a child of the table isn't a row".into()); }
    if rows.len() != t.rows.len() { return Err(format!("{}: {} rows instead of {}", t.env, rows.len(), t.rows.len())); }
    let num = NUMBERED.contains(&t.env);
    for (i, row) in rows.iter().enumerate() {
        let mut cells = row.els();
        if cells.iter().any(|c| c.name != "mtd") { return Err("a child of a row isn't a cell".into()); }
        if num {
            if cells.len() < 2 { return Err("numbering columns missing".into()); }
            let f = cells.remove(0);
            if !f.els().is_empty() || !f.text().is_empty() { return Err("the first column of a numbered row isn't empty".into()); }
            cells.pop();
        }
        let want = row_cells(t, i);
        if cells.len() != want.len() { return Err(format!("{} row {}: {} cells instead of {}", t.env, i + 1, cells.len(), want.len())); }
        for (k, (c, (w, src))) in cells.iter().zip(&want).enumerate() {
            let got = css(c.attr("style").unwrap_or(""));
            if &got != w { return Err(format!("{} row {} cell {}: style {got:?} instead of {w:?}", t.env, i + 1, k + 1)); }
            let Some(j) = src else { if !c.kids.is_empty() { return Err(format!("{} row {}: a line-only cell has content", t.env, i + 1)); } continue };
            let (mut marks, mut tabs) = (vec![], vec![]);
            own(c, &mut marks, &mut tabs);
            let (mut wm, mut wtabs) = (vec![], vec![]);
            for it in &t.rows[i].cells[*j] { match it { Item::Mark(n) => wm.push(format!("n{n}")), Item::Tab(t) | Item::Wrapped(_, t, _) => wtabs.push(t), Item::Junk(_) => {} } }
            if marks != wm { return Err(format!("{} row {} cell {}: holds {marks:?} instead of {wm:?}", t.env, i + 1, j + 1)); }
            if tabs.len() != wtabs.len() { return Err(format!("{} row {} cell {}: {} nested tables instead of {}", t.env, i + 1, j + 1, tabs.len(), wtabs.len())); }
            for (a, b) in wtabs.iter().zip(tabs) { compare(a, b).map_err(|e| format!("{} row {} cell {}: {e}", t.env, i + 1, j + 1))?; }
        }
    }
    Ok(())
}
pub fn check(t: &Table, s: &str, m: &str) -> Result<(), String> {
    let e = xml::parse(m)?;
    let (mut marks, mut tabs) = (vec![], vec![]);
    own(&e, &mut marks, &mut tabs);
    let _ = s;
    if tabs.len() != 1 { return Err(format!("{} tables: {m}", tabs.len())); }
    compare(t, tabs[0]).map_err(|e| format!("{e}: {m}"))
}
pub fn run_c18(ctx: &mut Ctx) {
    ctx.rule = "random tables of every environment (up to 30 rows, 24 columns, and single ones up to 513 rows or 515 columns; nested in cells, groups, fractions and scripts, with lines and comments); rows, cells, contents, alignment, padding and borders against an independent model".into();
    let l = plain();
    // long and wide tables: no count wraps around
    for env in TABLES {
        for (nr, nc) in [(255, 1), (257, 1), (300, 2), (513, 1), (2, 256), (2, 259), (1, 515)] {
            if nr > 1 && matches!(env, "equation" | "equation*") || nc > 1 && !columns(env) { continue; }
            let mut r = Rng(ctx.rng.next());
            let spec = if env.contains("array") { let s = if nc < 9 { "|r:l".to_string() } else { "c|lr||".repeat(nc / 3 - 1) }; let p = read_spec(&s).unwrap(); Some((s, p)) } else { None };
            let mut mark = 0;
            let rows = (0..nr).map(|_| Row { top: None, cells: (0..nc).map(|_| { mark += 1; vec![Item::Mark(mark)] }).collect() }).collect();
            let t = Table { env, spec, top: None, rows };
            let mut s = String::new();
            source(&t, &mut r, &mut s);
            ctx.case(&s, || match block(&l, &s) { Ok(m) => check(&t, &s, &m), Err(e) => Err(format!("fails: {}", e.error_message())) });
        }
    }
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut n = 0;
        let t = random_table(&mut r, 2, &mut n, true);
        let mut s = String::new();
        source(&t, &mut r, &mut s);
        ctx.case(&s, || match block(&l, &s) { Ok(m) => check(&t, &s, &m), Err(e) => Err(format!("fails: {}", e.error_message())) });
    }
}
pub fn run_c06(ctx: &mut Ctx) {
    ctx.rule = "every specification of up to 4 (thorough: 6) of the characters l c r | : blank and x, and random ones up to 24 characters, in array, darray and subarray with as many cells as columns, fewer and more; borders, alignment and line-only cells against an independent reader".into();
    let l = plain();
    let one = |ctx: &mut Ctx, s: &str, env: &'static str, extra: isize| {
        let sp = read_spec(s);
        let n = sp.as_ref().map_or(1, |p| p.entries.iter().filter(|e| matches!(e, Entry::Col(..))).count());
        let k = (n as isize + extra).max(1) as usize;
        let mut mark = 0;
        let t = Table { env, spec: Some((s.to_string(), sp.clone().unwrap_or(Spec { left: None, entries: vec![] }))), top: None,
            rows: (0..2).map(|_| Row { top: None, cells: (0..k).map(|_| { mark += 1; vec![Item::Mark(mark)] }).collect() }).collect() };
        let mut src = format!("\\begin{{{env}}}{{{s}}}");
        for (i, row) in t.rows.iter().enumerate() {
            if i > 0 { src.push_str("\\\\"); }
            for (j, c) in row.cells.iter().enumerate() { if j > 0 { src.push('&'); } if let Item::Mark(n) = c[0] { src.push_str(&format!("\\text{{n{n}}}")); } }
        }
        src.push_str(&format!("\\end{{{env}}}"));
        ctx.case(&src, || match (block(&l, &src), &sp) {
            (Ok(m), Some(_)) => check(&t, &src, &m),
            (Ok(m), None) => Err(format!("a malformed specification is accepted: {m}")),
            (Err(e), Some(_)) => Err(format!("a valid specification is rejected: {}", e.error_message())),
            (Err(_), None) => Ok(()),
        });
    };
    const A: [char; 7] = ['l', 'c', 'r', '|', ':', ' ', 'x'];
    let end = ctx.slice(0.6);
    'ex: for len in 0..=(if ctx.thorough { 6 } else { 4 }) {
        for k in 0..7usize.pow(len) {
            let mut s = String::new();
            let mut k = k;
            for _ in 0..len { s.push(A[k % 7]); k /= 7; }
            one(ctx, &s, "array", (s.len() % 2) as isize);
            if ctx.failing() || std::time::Instant::now() > end { break 'ex; }
        }
    }
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut s = random_spec(&mut r);
        if r.chance(1, 6) { let i = r.below(s.len() + 1); s.insert(i, *r.pick(&['x', 'L', 'p', '-', '1', ',', '.', '*', '!', 'C', 'R', ';', 'i'])); }
        let e = *r.pick(&["array", "darray", "subarray"]);
        let x = *r.pick(&[0, 0, 1, 2, -1]);
        one(ctx, &s, e, x);
    }
}
