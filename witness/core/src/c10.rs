//! C10: a snippet with macros against the same snippet expanded by hand (an independent expander).
use crate::generate::*;
use math_core::{MathCoreConfig, MathDisplay};
use wlib::{xml::{self, El, Item}, Ctx, Rng};

type Toks = Vec<String>;
struct Mac { name: String, n: usize, body: Toks }

fn t(s: &str) -> String { s.to_string() }
/// Text of a token list, with a blank after a control word.
pub fn show(v: &[String]) -> String {
    let mut s = String::new();
    for x in v { s.push_str(x); if x.starts_with('\\') && x.ends_with(|c: char| c.is_ascii_alphabetic()) { s.push(' '); } }
    s
}
const TAKES_ARGS: [&str; 25] = ["\\frac", "\\binom", "\\overset", "\\stackrel", "\\tfrac", "\\sqrt", "\\left", "\\right", "\\text", "\\textbf", "\\operatorname", "\\hat", "\\bar", "\\overline", "\\underbrace", "\\mathrel", "\\mathbin", "\\mathop", "\\phantom", "\\tilde", "\\color", "\\not", "\\mathbf", "\\mathchoice", "\\limits"];
/// Blanks after a control word are no tokens.
fn no_blanks(v: &mut Toks) {
    let mut out: Toks = vec![];
    for x in v.drain(..) { if x.trim().is_empty() && out.last().is_some_and(|p| p.starts_with('\\') && p.ends_with(|c: char| c.is_ascii_alphabetic())) { continue; } out.push(x); }
    *v = out;
}
/// Full expansion, left to right, substituting tokens.
fn expand(input: &[String], macs: &[Mac], left: &mut usize) -> Option<Toks> {
    let mut out: Toks = vec![];
    let mut intext = 0;
    let mut todo: Vec<String> = input.iter().rev().cloned().collect();
    while let Some(x) = todo.pop() {
        let Some(m) = macs.iter().find(|m| m.name == x) else {
            let opens = out.last().is_some_and(|p: &String| p.starts_with("\\text") || p == "\\operatorname");
            if (intext > 0 || opens) && x == "{" { intext += 1; }
            if intext > 0 && x == "}" { intext -= 1; }
            out.push(x);
            continue;
        };
        // macros aren't expanded in text
        if intext > 0 { return None; }
        if *left == 0 { return None; }
        *left -= 1;
        let mut args: Vec<Toks> = vec![];
        for _ in 0..m.n {
            while todo.last().is_some_and(|x| x.trim().is_empty()) { todo.pop(); }
            let f = todo.pop()?;
            if f == "}" { return None; }
            let mut a = vec![];
            if f == "{" {
                let mut d = 1;
                loop { let y = todo.pop()?; if y == "{" { d += 1 } else if y == "}" { d -= 1; if d == 0 { break } } a.push(y); }
                if a.is_empty() { a = vec![t("{"), t("}")]; }
            } else {
                // a built-in command parted from its arguments would read a macro as one
                if f.starts_with('\\') && TAKES_ARGS.contains(&f.as_str()) { return None; }
                a.push(f);
            }
            args.push(a);
        }
        let mut b = vec![];
        if m.body.is_empty() { b = vec![t("{"), t("}")]; }
        for y in &m.body {
            match y.strip_prefix('#').and_then(|d| d.parse::<usize>().ok()) { Some(k) => b.extend(args.get(k - 1)?.iter().cloned()), None => b.push(y.clone()) }
        }
        todo.extend(b.into_iter().rev());
        // a script supplied by a macro doesn't reach the atom before it: outside the property
        if todo.iter().rev().find(|x| !x.trim().is_empty()).is_some_and(|x| ["'", "^", "_", "\\limits", "\\nolimits"].contains(&x.as_str())) { return None; }
        if todo.len() > 4000 || out.len() > 4000 { return None; }
    }
    Some(out)
}
struct G<'a, 'b> { r: &'a mut Rng, macs: &'b [Mac], params: usize, budget: usize }
impl G<'_, '_> {
    fn seq(&mut self, d: usize, out: &mut Toks) {
        let n = match self.r.below(8) { 0 => 0, 1..=3 => 1, 4..=5 => 2, _ => self.r.range(3, 5) };
        for _ in 0..n { self.item(d, out); }
    }
    fn braced(&mut self, d: usize, out: &mut Toks) { out.push(t("{")); self.seq(d, out); out.push(t("}")); }
    fn call(&mut self, d: usize, out: &mut Toks) {
        if self.macs.is_empty() { return; }
        let k = self.r.below(self.macs.len());
        let (name, n) = (self.macs[k].name.clone(), self.macs[k].n);
        out.push(name);
        for _ in 0..n {
            if self.r.chance(1, 5) { out.push(t(" ")); }
            match self.r.below(8) {
                7 => { out.push(t("{")); out.push(t(" ")); self.seq(d, out); if self.r.chance(1, 2) { out.push(t(" ")); } out.push(t("}")); }
                0 => out.push(self.r.pick(&["x", "z", "\\alpha", "+", "=", ",", "(", "'", "\\sum"]).to_string()),
                1 => { out.push(t("{")); out.push(t("}")); }
                2 if self.params > 0 => { let p = self.r.range(1, self.params); out.push(format!("#{p}")); }
                3 => { let k = self.r.below(self.macs.len()); if self.macs[k].n == 0 { out.push(self.macs[k].name.clone()) } else { self.braced(d, out) } }
                _ => self.braced(d, out),
            }
        }
    }
    fn item(&mut self, d: usize, out: &mut Toks) {
        if self.budget == 0 { return; }
        self.budget -= 1;
        if d == 0 { return self.atom(out); }
        let d = d - 1;
        match self.r.below(36) {
            0..=6 => self.atom(out),
            7..=13 => self.call(d, out),
            14 | 15 if self.params > 0 => { let p = self.r.range(1, self.params); out.push(format!("#{p}")); }
            16 => { self.atom(out); out.push(t("^")); self.braced(d, out); }
            17 => { self.atom(out); out.push(t("_")); self.braced(d, out); }
            18 => self.braced(d, out),
            19 => { out.push(self.r.pick(&["\\frac", "\\binom", "\\overset", "\\stackrel", "\\tfrac"]).to_string()); self.braced(d, out); self.braced(d, out); }
            20 => { out.push(t("\\sqrt")); self.braced(d, out); }
            21 => { out.push(t("\\sqrt")); out.push(t("[")); self.atom(out); out.push(t("]")); self.braced(d, out); }
            22 => { out.push(t("\\left")); out.push(self.r.pick(&["(", ".", "[", "|"]).to_string()); self.seq(d, out); out.push(t("\\right")); out.push(self.r.pick(&[")", ".", "]", "|"]).to_string()); }
            23 => { out.push(self.r.pick(&["\\hat", "\\bar", "\\overline", "\\underbrace", "\\mathrel", "\\mathbin", "\\mathop", "\\phantom", "\\tilde"]).to_string()); self.braced(d, out); }
            24 => { out.push(t("{")); self.seq(d, out); out.push(self.r.pick(&["\\over", "\\choose", "\\atop"]).to_string()); self.seq(d, out); out.push(t("}")); }
            25 => { out.push(t("{")); self.seq(d, out); out.push(self.r.pick(&["\\displaystyle", "\\scriptstyle", "\\textstyle"]).to_string()); self.seq(d, out); out.push(t("}")); }
            26 => { out.push(t("{")); for x in ["\\color", "{", "r", "e", "d", "}"] { out.push(t(x)); } self.seq(d, out); out.push(t("}")); }
            27 => { out.push(t("\\begin{matrix}"));
                    let n = self.r.range(1, 4);
                    for k in 0..n { if k > 0 { out.push(self.r.pick(&["&", "\\\\", "&"]).to_string()); } self.seq(d, out); }
                    out.push(t("\\end{matrix}")); }
            28 => { out.push(self.r.pick(&["\\sum", "\\int", "\\lim", "\\bigcup", "\\max"]).to_string()); if self.r.chance(1, 3) { out.push(self.r.pick(&["\\limits", "\\nolimits"]).to_string()); } if self.r.chance(1, 2) { out.push(t("_")); self.braced(d, out); } if self.r.chance(1, 2) { out.push(t("^")); self.braced(d, out); } }
            29 => { out.push(t("\\not")); out.push(self.r.pick(&["=", "\\in", "<", "a"]).to_string()); }
            30 => out.push(t(" ")),
            31 => { out.push(t("\\mathbf")); out.push(t("{")); out.push(self.r.pick(&["a", "B", "1", "\\alpha"]).to_string()); out.push(t("}")); }
            32 => { out.push(t("\\mathchoice")); for _ in 0..4 { self.braced(d, out); } }
            33 => { out.push(self.r.pick(&["\\text", "\\textbf", "\\operatorname"]).to_string()); out.push(t("{")); self.text(out); out.push(t("}")); }
            _ => self.atom(out),
        }
    }
    /// Text, where blanks count.
    fn text(&mut self, out: &mut Toks) {
        for _ in 0..self.r.range(1, 5) {
            match self.r.below(6) {
                0 | 1 => out.push(t(" ")),
                2 | 3 if self.params > 0 => { let p = self.r.range(1, self.params); out.push(format!("#{p}")); }
                _ => out.push(self.r.pick(&["a", "b", "x", "1", ",", "-", "é"]).to_string()),
            }
        }
    }
    fn atom(&mut self, out: &mut Toks) {
        out.push(self.r.pick(&["a", "b", "x", "y", "A", "B", "C", "+", "-", "=", "<", ",", ";", ":", "!", "(", ")", "[", "]", "|", "/", "'", "*", "\\alpha", "\\beta", "\\times", "\\leq", "\\to", "\\ldots", "\\quad", "\\infty", "\\sin", "\\log", "\\sum", "\\prime", "\\{", "\\}", "\\,", "\\cdot", "\\mid", "α", "ℝ"]).to_string());
    }
}
const FIXED: [&str; 8] = ["mfrac", "msub", "msup", "msubsup", "munder", "mover", "munderover", "mroot"];
/// Runs of letters or digits may be split at the edge of a macro, and an empty expansion leaves
/// an empty row: join neighbours, drop empty rows in sequences and rows around one element.
fn joined(e: &El, spacing: bool) -> El {
    let mut kids: Vec<Item> = vec![];
    for k in &e.kids {
        match k {
            Item::El(c) => {
                let mut c = joined(c, spacing);
                while c.name == "mrow" && c.attrs.is_empty() && c.kids.len() == 1 && let Item::El(x) = &c.kids[0] { c = x.clone(); }
                if c.name == "mrow" && c.attrs.is_empty() && c.kids.is_empty() && !FIXED.contains(&e.name.as_str()) { continue; }
                if (c.name == "mn" || c.name == "mi")
                    && !FIXED.contains(&e.name.as_str())
                    && let Some(Item::El(p)) = kids.last_mut()
                    && p.name == c.name && p.attrs == c.attrs
                { let s = p.text() + &c.text(); p.kids = vec![Item::Text(s)]; continue; }
                kids.push(Item::El(c));
            }
            x => kids.push(x.clone()),
        }
    }
    let attrs = e.attrs.iter().filter(|a| spacing || !(a.0 == "lspace" || a.0 == "rspace" || (e.name == "mpadded" && a.0 == "style"))).cloned().collect();
    El { name: e.name.clone(), attrs, kids }
}
pub fn norm(s: &str) -> Result<El, String> { Ok(joined(&xml::parse(s)?, true)) }
fn norm_loose(s: &str) -> Result<El, String> { Ok(joined(&xml::parse(s)?, false)) }

/// Tokens without a class.
const UNCLASSED: [&str; 9] = ["\\mathchoice", "\\quad", "\\,", "'", "^", "_", "\\not", "\\color", "\\over"];

pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random formulas with up to five macros (nested calls, parameters used in any order and number, single-token, empty and braced arguments) against their expansion by an independent expander".into();
    let l = plain();
    while ctx.more() {
        let mut r = Rng(ctx.rng.next());
        let mut macs: Vec<Mac> = vec![];
        let nm = r.range(1, 5);
        for k in 0..nm {
            let n = match r.below(6) { 0 | 1 => 0, 2 | 3 => 1, 4 => 2, _ => r.range(3, 9) };
            let mut body = vec![];
            match r.below(12) {
                0 => {}
                1 => body.push(t(" ")),
                2 if n > 0 => for _ in 0..r.range(1, 4) { body.push(format!("#{}", r.range(1, n))) },
                _ => { let depth = r.range(0, 3); let budget = r.range(1, 12); G { r: &mut r, macs: &macs, params: n, budget }.seq(depth, &mut body) }
            }
            no_blanks(&mut body);
            macs.push(Mac { name: format!("\\m{}", ["a", "b", "c", "d", "e"][k]), n, body });
        }
        let mut top = vec![];
        let depth = r.range(1, 4);
        let budget = r.range(3, 20);
        { let mut g = G { r: &mut r, macs: &macs, params: 0, budget }; g.call(depth, &mut top); g.seq(depth, &mut top); if g.r.chance(1, 2) { g.call(depth, &mut top); g.seq(depth, &mut top); } }
        no_blanks(&mut top);
        let mut left = 300;
        let Some(flat) = expand(&top, &macs, &mut left) else { continue };
        if flat.len() > 600 { continue; }
        // a blank expansion at the end of a branch keeps a script behind the choice from its atom
        if flat.iter().any(|x| x == "\\mathchoice") && macs.iter().any(|m| m.body.iter().all(|x| x.trim().is_empty())) { continue; }
        let want_src = show(&flat);
        // in text, neighbouring blanks and blanks after a control word would be lost by hand
        if flat.iter().any(|x| x.starts_with("\\text") || x == "\\operatorname") && flat.windows(2).any(|w| w[1] == " " && (w[0] == " " || w[0].starts_with('\\'))) { continue; }
        // how the macros are defined
        let how = r.below(4);
        let mut defs = String::new();
        for m in &macs {
            let b = show(&m.body);
            defs.push_str(&match how {
                0 => { let p: String = (1..=m.n).map(|k| format!("#{k}")).collect(); format!("\\def{}{}{{{}}}", m.name, p, b) }
                1 => if m.n == 0 { format!("\\newcommand{{{}}}{{{}}}", m.name, b) } else { format!("\\newcommand{{{}}}[{}]{{{}}}", m.name, m.n, b) },
                _ => { if m.n == 0 { format!("\\providecommand{}{{{}}}", m.name, b) } else { format!("\\newcommand{}[{}]{{{}}}", m.name, m.n, b) } }
            });
        }
        let src = show(&top);
        let case = format!("macros: {}\nsnippet: {src}\nby hand: {want_src}", defs);
        // configured macros infer their parameters from the body
        let inferred = macs.iter().all(|m| (m.n == 0) || m.body.contains(&format!("#{}", m.n)));
        let d = display(&mut r);
        // the class of a body which doesn't start with a classified token isn't known to the look-ahead
        let unclear = macs.iter().any(|m| !m.body.first().is_some_and(|x| !x.starts_with('#') && !x.trim().is_empty() && !macs.iter().any(|m| m.name == **x) && !UNCLASSED.contains(&x.as_str())));
        ctx.case(&case, || {
            let want = go(&l, &want_src, d);
            let got = if how == 3 && inferred {
                let c = MathCoreConfig { macros: macs.iter().map(|m| (m.name[1..].to_string(), show(&m.body))).collect(), ..Default::default() };
                match math_core::LatexToMathML::new(c) { Ok(l) => go(&l, &src, d), Err(e) => Err(e.0) }
            } else { go(&l, &format!("{defs}{src}"), d) };
            if unclear && let (Ok(g), Ok(w)) = (&got, &want) && norm_loose(g)? == norm_loose(w)? { return Ok(()); }
            same(&got, &want)
        });
    }
    let _ = MathDisplay::Block;
}
pub fn same(got: &Result<String, Box<math_core::LatexError>>, want: &Result<String, Box<math_core::LatexError>>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) => if g == w || norm(g)? == norm(w)? { Ok(()) } else { Err(format!("with macros {g}\nby hand {w}")) },
        (Err(_), Err(_)) => Ok(()),
        (Ok(g), Err(e)) => Err(format!("by hand it is an error ({}), with macros it gives {g}", e.error_message())),
        (Err(e), Ok(w)) => Err(format!("with macros it is an error ({}), by hand it gives {w}", e.error_message())),
    }
}
/// Equal but for operator spacing.
pub fn loose(g: &str, w: &str) -> Result<(), String> { if g == w || norm_loose(g)? == norm_loose(w)? { Ok(()) } else { Err(format!("gives {g}, expected {w}")) } }
