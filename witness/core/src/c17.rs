//! C17: formulas whose styles and atom classes are known by construction; the style shows in which
//! branch of \mathchoice is taken, the spacing in the attributes of binary operators and relations.
use crate::generate::*;
use math_core::MathDisplay;
use std::collections::HashSet;
use wlib::{Ctx, Rng, xml::{self, El}};

#[derive(Clone, Copy, PartialEq, Debug)]
enum C { Ord, Op, Bin, Rel, Open, Close, Punct, Inner, Group, Gap, End, Start }
#[derive(Clone, Copy, PartialEq, Debug, PartialOrd)]
enum S { D, T, Sc, Ss }
use S::*;
impl S {
    fn script(self) -> S { if self <= T { Sc } else { Ss } }
    fn frac(self) -> S { match self { D => T, T => Sc, _ => Ss } }
    fn small(self) -> bool { self >= Sc }
}
#[derive(Clone, Debug, PartialEq)]
enum M { Style(S), Bin(&'static str, bool), Rel(&'static str, bool, bool) }
impl M {
    fn show(&self) -> String {
        match self { M::Style(s) => format!("{s:?}"), M::Bin(t, z) => format!("bin {t} {}", if *z { "none" } else { "space" }), M::Rel(t, l, r) => format!("rel {t} {}|{}", if *l { "none" } else { "space" }, if *r { "none" } else { "space" }) }
    }
}
/// One item of a sequence: its source, the classes its neighbours see, and what it shows.
struct It { src: String, next: C, prev: C, kind: u8, text: &'static str, marks: Vec<M> }

const BINS: [(&str, &str); 12] = [("\\times ", "×"), ("\\cup ", "∪"), ("\\cap ", "∩"), ("\\pm ", "±"), ("\\oplus ", "⊕"), ("+", "+"), ("-", "−"), ("\\setminus ", "∖"), ("\\wedge ", "∧"), ("\\otimes ", "⊗"), ("\\circ ", "∘"), ("\\mathbin{\\div }", "÷")];
const RELS: [(&str, &str); 12] = [("=", "="), ("\\leq ", "≤"), ("\\in ", "∈"), ("\\sim ", "∼"), ("\\subset ", "⊂"), ("<", "<"), (">", ">"), ("\\equiv ", "≡"), ("\\therefore ", "∴"), ("\\succ ", "≻"), ("\\neq ", "≠"), ("\\approx ", "≈")];

struct B<'a> { r: &'a mut Rng, budget: usize, quirk: bool, used: &'a mut [bool; 2], allow: bool, inside: bool, lax: u8 }
impl B<'_> {
    fn probe(&mut self, s: S) -> It { It { src: "\\mathchoice{\\alpha}{\\beta}{\\gamma}{\\delta}".into(), next: C::Group, prev: C::Ord, kind: 0, text: "", marks: vec![M::Style(s)] } }
    fn ord(&mut self, src: &str) -> It { It { src: src.into(), next: C::Ord, prev: C::Ord, kind: 0, text: "", marks: vec![] } }
    fn with(&self, src: String, next: C, prev: C, marks: Vec<M>) -> It { It { src, next, prev, kind: 0, text: "", marks } }
    /// A sequence in braces.
    fn g(&mut self, s: S, d: usize) -> (String, Vec<M>) { let (a, m) = self.seq(s, d, C::Start, C::End, true); (format!("{{{a}}}"), m) }
    fn item(&mut self, s: S, d: usize) -> It {
        self.budget = self.budget.saturating_sub(1);
        let d = if self.budget == 0 { 0 } else { d };
        match self.r.below(if d == 0 { 21 } else { 45 }) {
            0..=3 => { let b = *self.r.pick(&["x", "y", "1", "\\infty ", "z'", "\\text{t}"]); self.ord(b) }
            4 | 5 => self.probe(s),
            6..=9 => { let b = *self.r.pick(&BINS); It { src: b.0.into(), next: C::Bin, prev: C::Bin, kind: 1, text: b.1, marks: vec![] } }
            10..=13 => { let b = *self.r.pick(&RELS); It { src: b.0.into(), next: C::Rel, prev: C::Rel, kind: 2, text: b.1, marks: vec![] } }
            14 => { let b = self.r.pick(&[",", ";", ";"]).to_string(); self.with(b, C::Punct, C::Punct, vec![]) }
            15 => { let b = self.r.pick(&["(", "[", "\\{", "\\bigl(", "\\langle ", "\\lfloor ", "\\mathopen{.}"]).to_string(); self.with(b, C::Open, C::Open, vec![]) }
            16 => { let b = self.r.pick(&[")", "]", "\\}", "\\bigr)", "\\rangle ", "\\rfloor ", "\\mathclose{.}", "!"]).to_string(); self.with(b, C::Close, C::Close, vec![]) }
            17 => { let b = self.r.pick(&["\\sum ", "\\int ", "\\sin ", "\\lim ", "\\operatorname{f}", "\\mathop{x}"]).to_string(); self.with(b, C::Op, C::Op, vec![]) }
            18 => { let b = self.r.pick(&["\\mathinner{x}", "\\mathinner{y}"]).to_string(); self.with(b, C::Inner, C::Inner, vec![]) }
            19 => { let b = self.r.pick(&["\\,", "\\quad ", "\\hspace{1em}", "\\;"]).to_string(); self.with(b, C::Gap, C::Gap, vec![]) }
            20 => { let b = *self.r.pick(&[("\\bigm|", C::Rel), ("\\mathrel{x}", C::Rel), ("\\mathbin{x}", C::Bin), ("\\mathord{x}", C::Ord), ("\\mathpunct{x}", C::Punct)]); self.with(b.0.into(), b.1, b.1, vec![]) }
            21 | 22 => { // group, maybe with a style declaration
                let (a, m) = if self.r.chance(1, 2) { self.g(s, d - 1) } else {
                    let (t, c) = self.decl();
                    let (a, m) = self.seq(t, d - 1, C::Start, C::End, true);
                    (format!("{{{c}{a}}}"), m)
                };
                self.with(a, C::Group, C::Ord, m)
            }
            23..=25 => { // scripts
                let b = *self.r.pick(&[("x", C::Ord), ("\\sum ", C::Op), ("\\sin ", C::Op), (")", C::Close), ("{xy}", C::Group), ("\\lim ", C::Op), ("\\int ", C::Op)]);
                let mut src = b.0.to_string(); let mut m = vec![];
                let how = self.r.below(3);
                if how != 1 { let (a, n) = self.g(s.script(), d - 1); src.push_str(&format!("_{a}")); m.extend(n); }
                if how != 0 { let (a, n) = self.g(s.script(), d - 1); src.push_str(&format!("^{a}")); m.extend(n); }
                self.with(src, b.1, if b.1 == C::Group { C::Ord } else { b.1 }, m)
            }
            26..=28 => { // fractions
                let f = *self.r.pick(&[("\\frac", None), ("\\dfrac", Some(D)), ("\\tfrac", Some(T)), ("\\cfrac", Some(D)), ("\\binom", None), ("\\dbinom", Some(D)), ("\\tbinom", Some(T)), ]);
                // \cfrac shows its parts in display style, like \dfrac's own style one step smaller elsewhere
                let t = f.1.unwrap_or(s).frac();
                let (a, m) = self.g(t, d - 1); let (b, n) = self.g(t, d - 1);
                self.with(format!("{}{a}{b}", f.0), C::Ord, C::Ord, [m, n].concat())
            }
            43 => { // \genfrac
                if !self.allow { return self.ord("y"); }
                let f = *self.r.pick(&[("\\genfrac{}{}{}{0}", Some(D)), ("\\genfrac(){0pt}{1}", Some(T)), ("\\genfrac{}{]}{1pt}{2}", Some(Sc)), ("\\genfrac{}{}{}{3}", Some(Ss)), ("\\genfrac{}{}{}{}", None)]);
                let t = if self.quirk { s } else { f.1.unwrap_or(s).frac() };
                let old = std::mem::replace(&mut self.inside, true);
                let (a, m) = self.g(t, d - 1); let (b, n) = self.g(t, d - 1);
                self.inside = old;
                if !m.is_empty() || !n.is_empty() { self.used[1] = true; }
                self.with(format!("{}{a}{b}", f.0), C::Ord, C::Ord, [m, n].concat())
            }
            29 => { // infix fraction
                if !self.allow { return self.ord("x"); }
                let over = self.r.pick(&["\\over ", "\\atop ", "\\choose "]).to_string();
                let numstyle = if self.quirk { s } else { s.frac() };
                let old = std::mem::replace(&mut self.inside, true);
                let (a, m) = self.seq(numstyle, d - 1, C::Start, C::End, false);
                self.inside = old;
                if !m.is_empty() { self.used[0] = true; }
                let (b, n) = self.seq(s.frac(), d - 1, C::Start, C::End, false);
                self.with(format!("{{{a}{over}{b}}}"), C::Group, C::Ord, [m, n].concat())
            }
            30 => { let (a, m) = self.g(s, d - 1); let c = self.r.pick(&["\\sqrt", "\\overline", "\\phantom", "\\hat", "\\vec", "\\underline", "\\widehat"]).to_string(); self.with(format!("{c}{a}"), C::Ord, C::Ord, m) }
            31 => { let (a, m) = self.g(s.script(), d - 1);
                // whether the end of what the label is on is an edge of the formula is left open
                let old = std::mem::replace(&mut self.lax, 1); let (b, n) = self.g(s, d - 1); self.lax = old;
                let c = self.r.pick(&["\\overset", "\\underset"]).to_string(); self.with(format!("{c}{a}{b}"), C::Gap, C::Gap, [n, m].concat()) }
            32 => { let old = std::mem::replace(&mut self.lax, 1); let (a, m) = self.g(s.script(), d - 1); self.lax = old; let c = self.r.pick(&["\\xrightarrow", "\\xleftarrow", "\\xmapsto"]).to_string(); self.with(format!("{c}{a}"), C::Rel, C::Rel, m) }
            33 | 34 => {
                let (l, r) = *self.r.pick(&[("(", ")"), ("[", "]"), (".", "|"), ("\\{", "."), ("\\langle ", "\\rangle "), ("|", "|")]);
                let (a, m) = self.seq(s, d - 1, C::Start, C::End, true);
                self.with(format!("\\left{l} {a}\\right{r} "), C::Open, C::Close, m)
            }
            35..=37 => { // tables
                let (e, t, amp) = *self.r.pick(&[("matrix", T, true), ("pmatrix", T, true), ("cases", T, true), ("dcases", D, true), ("rcases", T, true), ("aligned", D, true), ("gathered", D, false), ("array", T, true), ("darray", D, true), ("subarray", Sc, false), ("vmatrix", T, true)]);
                let mut src = format!("\\begin{{{e}}}"); if e.contains("array") { src.push_str(if amp { "{cc}" } else { "{c}" }); }
                let mut m = vec![];
                for i in 0..self.r.range(1, 3) {
                    if i > 0 { src.push_str("\\\\ "); }
                    let (a, n) = self.seq(t, d - 1, C::Start, C::End, true); src.push_str(&a); m.extend(n);
                    // what a cell starts with after a column separator depends on the environment: an ordinary atom here
                    if amp && self.r.chance(1, 2) { src.push_str("&x"); let (a, n) = self.seq(t, d - 1, C::Ord, C::End, true); src.push_str(&a); m.extend(n); }
                }
                src.push_str(&format!("\\end{{{e}}}"));
                self.with(src, C::Open, C::Close, m)
            }
            38 | 39 => {
                if self.inside { return self.ord("z"); } // a choice with more than a symbol in the branch
                let (a, m) = self.g(s, d - 1);
                let src: String = [D, T, Sc, Ss].iter().map(|b| if *b == s { format!("{{\\frac{{z}}{{{}}}{a}}}", "\\mathchoice{\\alpha}{\\beta}{\\gamma}{\\delta}") } else { "{\\times\\leq\\alpha\\delta}".to_string() }).collect();
                self.with(format!("\\mathchoice{src}"), C::Group, C::Ord, [vec![M::Style(s.frac())], m].concat())
            }
            40 => { let (a, m) = self.seq(s, d - 1, C::Start, C::End, true); self.with(format!("{{\\color{{red}}{a}}}"), C::Group, C::Ord, m) }
            41 => { let (a, m) = self.g(s, d - 1); self.with(format!("\\cramped{a}"), C::Ord, C::Ord, m) }
            _ => { let (a, m) = self.g(s, d - 1); self.with(format!("x{{{a}}}"), C::Ord, C::Ord, m) }
        }
    }
    fn decl(&mut self) -> (S, &'static str) { *self.r.pick(&[(D, "\\displaystyle "), (T, "\\textstyle "), (Sc, "\\scriptstyle "), (Ss, "\\scriptscriptstyle ")]) }
    /// A sequence and what it shows; the classes on both sides are those of its edges.
    fn seq(&mut self, s: S, d: usize, start: C, end: C, decls: bool) -> (String, Vec<M>) {
        let lax = self.lax;
        if lax == 1 { self.lax = 2; }
        let n = match self.r.below(8) { 0 => 1, 1..=3 => 2, 4 | 5 => 3, _ => self.r.range(3, 7) };
        let mut v: Vec<It> = vec![];
        let mut tail = None;
        for i in 0..n {
            let mut x = self.item(s, d);
            // whether an operator that lost its spacing is still binary for the next one, and what a gap or an atom
            // with no class of its own hides, are not part of the property
            let before = v.last().map_or(start, |p| p.prev);
            let demoted = matches!(before, C::Bin) && { let b = v.len().checked_sub(2).map_or(start, |j| v[j].prev); matches!(b, C::Start | C::Op | C::Rel | C::Open | C::Punct | C::Bin | C::Gap) };
            let edge = before == C::Gap || x.next == C::Gap;
            if (x.kind == 1 && demoted) || (edge && (x.kind != 0 || matches!(x.next, C::Gap) && v.last().is_some_and(|p| p.kind != 0) || x.next == C::Gap && i == 0)) { x = self.ord("x"); }
            v.push(x);
            if decls && d > 0 && i + 1 < n && self.r.chance(1, 8) && v.last().unwrap().prev == C::Ord {
                let (t, c) = self.decl();
                let (a, m) = self.seq(t, d - 1, C::Ord, end, true);
                tail = Some((format!(" {c}{a}"), m));
                break;
            }
        }
        self.lax = lax;
        if lax == 1 { let o = self.ord("x"); v.insert(0, o); if tail.is_none() { let o = self.ord("x"); v.push(o); } }
        if lax == 2 && end == C::End && tail.is_none() && v.last().unwrap().kind != 0 { let o = self.ord("x"); v.push(o); } // the finding overset-base-edge
        // an operator that is alone, or a gap at an edge, shows nothing
        if v.len() == 1 && tail.is_none() && (v[0].kind != 0 || v[0].src.starts_with("\\math") ) { let o = self.ord("x"); v.insert(0, o); }
        if v.last().unwrap().next == C::Gap { let o = self.ord("x"); v.push(o); }
        let mut src = String::new(); let mut m = vec![];
        for i in 0..v.len() {
            let prev = if i == 0 { start } else { v[i - 1].prev };
            let next = if i + 1 == v.len() { if tail.is_some() { C::Ord } else { end } } else { v[i + 1].next };
            let l = matches!(prev, C::Rel | C::Punct | C::Open | C::Start) || s.small();
            let r = matches!(next, C::Rel | C::Punct | C::Close | C::End) || s.small();
            match v[i].kind {
                1 => m.push(M::Bin(v[i].text, l || r || matches!(prev, C::Bin | C::Op))),
                2 => m.push(M::Rel(v[i].text, l, r)),
                _ => {}
            }
            m.extend(v[i].marks.drain(..));
            src.push_str(&v[i].src);
        }
        if let Some((a, n)) = tail { src.push_str(&a); m.extend(n); }
        (src, m)
    }
}
fn read(e: &El, bins: &HashSet<&str>, rels: &HashSet<&str>, out: &mut Vec<String>) {
    if e.name == "mi" || e.name == "mo" {
        let t = e.text();
        let zero = |a: &str| e.attr(a).is_some_and(|v| v.trim_end_matches("em") == "0");
        if let Some(s) = match t.as_str() { "α" => Some(D), "β" => Some(T), "γ" => Some(Sc), "δ" => Some(Ss), _ => None } { out.push(format!("{s:?}")); }
        else if e.name == "mo" && bins.contains(t.as_str()) { out.push(format!("bin {t} {}", match (zero("lspace"), zero("rspace")) { (true, true) => "none", (false, false) => "space", _ => "half" })); }
        else if e.name == "mo" && rels.contains(t.as_str()) { let w = |z| if z { "none" } else { "space" }; out.push(format!("rel {t} {}|{}", w(zero("lspace")), w(zero("rspace")))); }
    }
    // the arrow of an extensible arrow is not one of the relations looked at
    for k in e.els() { read(k, bins, rels, out); }
}
pub fn run(ctx: &mut Ctx) {
    ctx.rule = "random formulas of atoms of every class in every style (scripts, fractions, style commands, tables, fences), block and inline; styles and spacing against TeX's rules".into();
    let l = plain();
    let bins: HashSet<&str> = BINS.iter().map(|b| b.1).collect();
    let rels: HashSet<&str> = RELS.iter().map(|b| b.1).collect();
    while ctx.more() {
        let seed = ctx.rng.next();
        let build = |quirk: bool| {
            let mut used = [false; 2];
            let mut r = Rng(seed);
            let disp = display(&mut r);
            let (depth, budget) = (r.range(0, 4), r.range(4, 40));
            let allow = r.chance(1, 3);
            let mut b = B { r: &mut r, budget, quirk, used: &mut used, allow, inside: false, lax: 0 };
            let (src, m) = b.seq(if disp == MathDisplay::Block { D } else { T }, depth, C::Start, C::End, true);
            (disp, src, m, used)
        };
        let (disp, src, m, used) = build(false);
        let mut quirk = None;
        let q = &mut quirk;
        let (bins, rels, l) = (&bins, &rels, &l);
        ctx.case(&format!("{disp:?} {src}"), || {
            let out = match go(l, &src, disp) { Ok(o) => o, Err(e) => return Err(format!("fails: {}", e.error_message())) };
            let root = xml::parse(&out)?;
            let mut got = vec![]; read(&root, bins, rels, &mut got);
            let want: Vec<String> = m.iter().map(M::show).collect();
            if got == want { return Ok(()); }
            if used != [false; 2] { let w2: Vec<String> = build(true).2.iter().map(M::show).collect(); if got == w2 { *q = Some(format!("shows {got:?} instead of {want:?}")); return Ok(()); } }
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            Err(format!("mark {i}: {:?} instead of {:?}\n got {got:?}\nwant {want:?}\n out {out}", got.get(i), want.get(i)))
        });
        if let Some(w) = quirk { ctx.violation(&format!("{disp:?} {src}"), w, Some(if used[0] { "infix-numerator-style" } else { "genfrac-style" })); }
    }
}
