//! C13: numbers, tags, labels and references over documents, against a model of amsmath's rules.
use crate::generate::*;
use math_core::{LatexToMathML, MathCoreConfig, MathDisplay};
use std::collections::HashMap;
use wlib::{Ctx, Rng, xml::{self, El}};

#[derive(Clone, Debug, Default)]
struct Row { body: String, suppress: bool, tag: Option<(String, bool)>, label: Option<String> }
#[derive(Clone, Debug)]
enum Item { Env(&'static str, Vec<Row>), Ref(String), Other(String) }
type Shown = Vec<(Option<String>, Option<String>)>;

const ENVS: [&str; 7] = ["align", "align*", "equation", "equation*", "gather", "gather*", "multline"];
fn inner(r: &mut Rng) -> String {
    match r.below(9) {
        0 => "\\begin{gathered}p\\\\q\\end{gathered}".into(),
        1 => "\\begin{pmatrix}1&2\\\\3&4\\end{pmatrix}".into(),
        2 => "\\frac{x}{\\begin{matrix}a\\\\b\\end{matrix}}".into(),
        3 => r.pick(&["{\\sqrt{x^2}}", "{a\\over b}", "\\overbrace{x}^{y}", "\\mathbf{v}", "\\color{red}z", "\\displaystyle\\int", "f'(x)", "\\hspace{1em}q", "\\mathrel{R}"]).to_string(),
        4 => "\\begin{cases}1\\\\2\\end{cases}".into(),
        5 => "".into(),
        _ => r.pick(&["x", "y=1", "\\sum_i a", "\\left(z\\right)", "\\text{t}"]).to_string(),
    }
}
fn label_text(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let l = format!("{}{}", r.pick(&["a", "b", "eq:", "L-", "n.", "fig:"]), r.below(40));
        if !used.contains(&l) { used.push(l.clone()); return l; }
    }
}
fn row(r: &mut Rng, env: &str, used: &mut Vec<String>, k: usize, last: bool) -> Row {
    let mut w = Row { body: inner(r), ..Default::default() };
    if env.starts_with("align") && r.chance(1, 2) { w.body.push_str("&"); w.body.push_str(&inner(r)); }
    w.suppress = r.chance(1, 5);
    if r.chance(1, 4) { w.tag = Some((r.pick(&["A", "1", "32", "a b", "i.", "q*", "T1", "(x)"]).to_string() + &k.to_string(), r.chance(2, 3))); }
    if (last || env != "multline") && r.chance(1, 3) { w.label = Some(label_text(r, used)); }
    w
}
fn write_row(r: &mut Rng, w: &Row) -> String {
    let mut parts: Vec<String> = vec![];
    let sup = r.pick(&["\\notag ", "\\nonumber ", "\\notag{}", "\\nonumber\\notag "]).to_string();
    if w.suppress { parts.push(sup) }
    if let Some((t, p)) = &w.tag { parts.push(format!("\\tag{}{{{t}}}", if *p { "" } else { "*" })) }
    if let Some(l) = &w.label { parts.push(format!("\\label{{{l}}}")) }
    for i in (1..parts.len()).rev() { let j = r.below(i + 1); parts.swap(i, j); }
    let mut s = w.body.clone();
    for p in parts {
        match r.below(4) {
            // before the content, but not in front of a column separator's other side
            0 => s = format!("{p}{s}"),
            1 => s = format!("{s} {{}} {p}"),
            _ => s.push_str(&p),
        }
    }
    s
}
/// What each row shows; `carry` follows the finding that a suppression combined with a tag is not used up.
fn model(items: &[Item], count: &mut usize, labels: &mut HashMap<String, String>, carry: bool) -> Shown {
    let mut out = vec![];
    for it in items {
        let Item::Env(env, rows) = it else { continue };
        let (mut sup, mut tag): (bool, Option<(String, bool)>) = (false, None);
        for (i, w) in rows.iter().enumerate() {
            sup |= w.suppress;
            if w.tag.is_some() { tag = w.tag.clone(); }
            let last = i + 1 == rows.len();
            if *env == "multline" && !last { out.push((None, None)); continue; }
            let (text, shown) = if let Some((t, p)) = tag.take() {
                if !carry { sup = false; }
                (Some(t.clone()), Some(if p { format!("({t})") } else { t }))
            } else if sup || env.ends_with('*') { sup = false; (None, None) }
            else { *count += 1; (Some(count.to_string()), Some(format!("({count})"))) };
            match (text, &w.label) {
                (Some(t), Some(l)) => { labels.insert(l.clone(), t); out.push((shown, Some(l.clone()))) }
                _ => out.push((shown, None)),
            }
        }
    }
    out
}
fn read(e: &El, shown: &mut Shown, refs: &mut Vec<(String, String)>) -> Result<(), String> {
    if e.name == "mtable" && e.attr("style").is_some_and(|s| s.contains("width: 100%")) {
        for tr in e.els() {
            let cells = tr.els(); let m = cells.last().ok_or("a row without cells")?;
            let t = m.text();
            shown.push(((!t.is_empty()).then(|| t.trim().to_string()), m.attr("id").map(|s| s.to_string())));
        }
    }
    if e.name == "a" { refs.push((e.attr("href").unwrap_or("").to_string(), e.text().trim().to_string())); }
    for k in e.els() { read(k, shown, refs)?; }
    Ok(())
}
fn verify(out: &math_core::ConvertResult, want: &Shown, refs: &[String], labels: &HashMap<String, String>, prefix: &str) -> Result<(), String> {
    let root = xml::parse(&out.mathml)?;
    let (mut shown, mut got) = (vec![], vec![]);
    read(&root, &mut shown, &mut got)?;
    let want: Shown = want.iter().map(|(a, b)| (a.clone(), b.as_ref().map(|l| format!("{prefix}{l}")))).collect();
    if shown != want { return Err(format!("rows show {shown:?} instead of {want:?}")); }
    let exp: Vec<(String, String)> = refs.iter().map(|l| (format!("#{prefix}{l}"), format!("({})", labels.get(l).map_or("??", |s| s)))).collect();
    if got != exp { return Err(format!("references show {got:?} instead of {exp:?}")); }
    let missing = refs.iter().any(|l| !labels.contains_key(l));
    let warned = out.warnings.has_undefined_references();
    if missing != warned { return Err(format!("a reference is unknown: {missing}, but warnings: {:?}", out.warnings)); }
    Ok(())
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random documents of numbered environments with tags, labels, suppressed numbers and references, one snippet after another, in one snippet and as a collection; rows, references and warnings against a model of the numbering".into();
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut used: Vec<String> = vec![];
        let mut doc: Vec<(Vec<Item>, String)> = vec![];
        let nosup = r.chance(1, 2); // histories without the known finding
        for k in 0..r.range(1, 5) {
            let mut items = vec![];
            for _ in 0..r.range(1, 5) {
                match r.below(6) {
                    0 => items.push(Item::Other(r.pick(&["x", "\\frac{1}{2}", "\\begin{aligned}a\\\\b\\end{aligned}", "\\begin{matrix}1\\\\2\\end{matrix}", "\\newcommand{\\zz}{z}\\zz "]).to_string())),
                    1 | 2 => { let l = if !used.is_empty() && r.chance(3, 4) { r.pick(&used).clone() } else if r.chance(1, 2) { let mut u = used.clone(); label_text(&mut r, &mut u) } else { "nowhere".into() }; items.push(Item::Ref(l)) }
                    _ => {
                        let env = *r.pick(&ENVS);
                        let n = if env.starts_with("equation") { 1 } else if r.chance(1, 15) { r.range(9, 14) } else { r.range(1, 6) };
                        let mut rows: Vec<Row> = (0..n).map(|i| row(&mut r, env, &mut used, k * 7 + i, i + 1 == n)).collect();
                        if nosup { for w in &mut rows { if w.tag.is_some() { w.suppress = false; } } if env == "multline" { for w in &mut rows { w.suppress = false; } } }
                        items.push(Item::Env(env, rows));
                    }
                }
            }
            if k > 0 && doc.iter().all(|d| !d.1.contains("\\newcommand")) {} else { items.retain(|i| !matches!(i, Item::Other(o) if o.contains("newcommand")) || k == 0); }
            let text: String = items.iter().map(|i| match i {
                Item::Ref(l) => format!("\\eqref{{{l}}}"), Item::Other(o) => o.clone(),
                Item::Env(e, rows) => { let sep = if r.chance(1, 4) { "\\\\ \n" } else { "\\\\" }; let v: Vec<String> = rows.iter().map(|w| write_row(&mut r, w)).collect(); format!("\\begin{{{e}}}{}\\end{{{e}}}", v.join(sep)) }
            }).collect();
            doc.push((items, text));
        }
        if doc.iter().map(|d| d.1.matches("\\newcommand").count()).sum::<usize>() > 1 { continue; }
        let prefix = r.pick(&["", "p-", "x1:"]).to_string();
        let mk = { let prefix = prefix.clone(); let s = r.next(); move || { let mut c: MathCoreConfig = config_named(&mut Rng(s)).0; c.id_prefix = prefix.clone().into(); c.annotation = false; c.macros = vec![]; c.max_expansions = math_core::MaxExpansions(1000); c } };
        // a snippet that fails early must leave numbers and labels alone
        let fail_at = if r.chance(1, 3) { Some(r.below(doc.len())) } else { None };
        let text = format!("[{prefix:?} fail before {fail_at:?}] {}", doc.iter().map(|d| format!("{:?}", d.1)).collect::<Vec<_>>().join("; "));
        let mut carried = None;
        let disp: Vec<MathDisplay> = doc.iter().map(|_| display(&mut r)).collect();
        let carried_ref = &mut carried;
        ctx.case(&text, move || {
            let one = |carry: bool| -> Result<(), String> {
                let refs = |its: &[Item]| its.iter().filter_map(|i| if let Item::Ref(l) = i { Some(l.clone()) } else { None }).collect::<Vec<_>>();
                // one after another
                let mut c: LatexToMathML = conv(mk());
                let (mut n, mut labels) = (0, HashMap::new());
                let mut wants = vec![];
                for (i, (items, s)) in doc.iter().enumerate() {
                    if fail_at == Some(i) { if c.convert_with_global_state("\\begin{align}\\label{zq}\\frac{", MathDisplay::Block).is_ok() { return Err("an open group converts".into()); } }
                    let want = model(items, &mut n, &mut labels, carry);
                    let out = c.convert_with_global_state(s, disp[i]).map_err(|e| format!("snippet {i} fails: {}", e.error_message()))?;
                    verify(&out, &want, &refs(items), &labels, &prefix).map_err(|e| format!("snippet {i}: {e}"))?;
                    wants.push(want);
                    // on its own
                    let (mut n1, mut l1) = (0, HashMap::new());
                    let w1 = model(items, &mut n1, &mut l1, carry);
                    if !s.contains("\\zz") {
                        let out = c.convert_with_local_state(s, disp[i]).map_err(|e| format!("snippet {i} fails alone: {}", e.error_message()))?;
                        verify(&out, &w1, &refs(items), &l1, &prefix).map_err(|e| format!("snippet {i} alone: {e}"))?;
                    }
                }
                // a reset starts at 1 again and forgets the labels
                c.reset_global_state();
                let (mut n1, mut l1) = (0, HashMap::new());
                let w1 = model(&doc[0].0, &mut n1, &mut l1, carry);
                let out = c.convert_with_global_state(&doc[0].1, disp[0]).map_err(|e| e.error_message())?;
                verify(&out, &w1, &refs(&doc[0].0), &l1, &prefix).map_err(|e| format!("after a reset: {e}"))?;
                // as a collection (references may point forward)
                let col: Vec<(&str, MathDisplay)> = doc.iter().zip(&disp).map(|(d, m)| (d.1.as_str(), *m)).collect();
                for (i, o) in c.convert_all(&col).into_iter().enumerate() {
                    let o = o.map_err(|e| format!("snippet {i} fails in a collection: {}", e.error_message()))?;
                    verify(&o, &wants[i], &refs(&doc[i].0), &labels, &prefix).map_err(|e| format!("snippet {i} of a collection: {e}"))?;
                }
                Ok(())
            };
            match one(false) {
                Ok(()) => Ok(()),
                Err(e) => if one(true).is_ok() { *carried_ref = Some(e); Ok(()) } else { Err(e) },
            }
        });
        if let Some(e) = carried { ctx.violation(&text, e, Some("notag-tag-carry")); }
    }
}
