//! Generators of LaTeX inputs and configurations, shared by all properties.
use math_core::{CssClassNames, IndentKeyword, Indentation, LatexError, LatexToMathML, MathCoreConfig, MathDisplay, MaxExpansions, PrettyPrint, UnicodeSubstitution};
use std::sync::OnceLock;
use wlib::Rng;

pub struct Cmd { pub kind: &'static str, pub name: &'static str, pub rest: &'static str }

pub fn cmds() -> &'static [Cmd] {
    static C: OnceLock<Vec<Cmd>> = OnceLock::new();
    C.get_or_init(|| include_str!("../data/commands.txt").lines().filter_map(|l| {
        let mut p = l.split('\t');
        Some(Cmd { kind: p.next()?, name: p.next()?, rest: p.next().unwrap_or("") })
    }).collect())
}
pub fn of_kind(k: &str) -> Vec<&'static str> { cmds().iter().filter(|c| c.kind == k).map(|c| c.name).collect() }
pub fn corpus() -> &'static [String] {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../data/corpus.json")).unwrap())
}
/// A command with a blank after it if it needs one.
pub fn cs(n: &str) -> String {
    if n.ends_with(|c: char| c.is_ascii_alphabetic()) { format!("\\{n} ") } else { format!("\\{n}") }
}
pub const TABLES: [&str; 22] = ["array", "subarray", "align", "align*", "aligned", "darray", "equation", "equation*", "gather", "gather*", "gathered", "multline", "bmatrix", "Bmatrix", "cases", "rcases", "dcases", "drcases", "matrix", "pmatrix", "vmatrix", "Vmatrix"];
const CHARS: [&str; 60] = ["a", "b", "x", "y", "z", "A", "Z", "0", "1", "2", "9", ".", ",", ";", ":", "!", "?", "+", "-", "*", "/", "=", "<", ">", "(", ")", "[", "]", "|", "'", "''", "\"", "`", "@", "~", " ", "  ", "\n", "α", "β", "Γ", "∂", "∞", "≠", "≤", "→", "∑", "∫", "′", "‴", "½", "é", "日", "👍", "\u{fe00}", "\u{fe0f}", "\u{338}", "\u{2061}", "−", "ϕ"];

pub struct Gen<'a> { pub r: &'a mut Rng, pub budget: usize, pub table: bool }

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, budget: usize) -> Self { Gen { r, budget, table: false } }
    pub fn kind(&mut self, k: &str) -> String { let v = of_kind(k); let n = *self.r.pick(&v); cs(n) }
    pub fn group(&mut self, d: usize) -> String { format!("{{{}}}", self.seq(d)) }
    pub fn arg(&mut self, d: usize) -> String {
        match self.r.below(8) { 0 => self.r.pick(&["x", "2", "\\alpha ", "+", "="]).to_string(), 1 => "{}".into(), _ => { let t = std::mem::replace(&mut self.table, false); let g = self.group(d); self.table = t; g } }
    }
    pub fn delim(&mut self) -> String { self.r.pick(&["(", ")", "[", "]", "\\{", "\\}", "|", "\\|", ".", "/", "\\langle ", "\\rangle ", "\\lfloor ", "\\uparrow ", "\\Updownarrow ", "<", ">", "\\lbrace ", "\\vert ", "\\Vert ", "\\backslash ", "\\ulcorner "]).to_string() }
    pub fn length(&mut self) -> String {
        let n = *self.r.pick(&["1", "0", "-1", "1.5", ".5", "2.", "-0.25", "12.345", "100", "1 "]);
        let u = *self.r.pick(&["em", "pt", "ex", "cm", "mm", "in", "sp", "mu", "PT", "Em"]);
        format!("{n}{u}")
    }
    pub fn seq(&mut self, d: usize) -> String {
        let n = match self.r.below(10) { 0 => 0, 1..=4 => 1, 5..=7 => 2 + self.r.below(2), _ => 3 + self.r.below(4) };
        let mut s = String::new();
        for _ in 0..n { if self.budget == 0 { break; } s.push_str(&self.item(d)); }
        s
    }
    pub fn rows(&mut self, d: usize, amp: bool, hl: bool, num: bool) -> String {
        let mut s = String::new();
        let nr = 1 + self.r.below(4);
        let t = std::mem::replace(&mut self.table, true);
        for i in 0..nr {
            if i > 0 { s.push_str("\\\\"); }
            if hl && self.r.chance(1, 5) { s.push_str(self.r.pick(&["\\hline ", "\\hdashline "])); }
            let nc = if amp { 1 + self.r.below(4) } else { 1 };
            for j in 0..nc { if j > 0 { s.push('&'); } s.push_str(&self.seq(d)); }
            if num && self.r.chance(1, 3) { s.push_str(*self.r.pick(&["\\notag ", "\\nonumber ", "\\tag{a}", "\\tag*{b c}", "\\label{l1}", "\\label{l2}", "\\tag{x}\\label{l3}", "\\tag{a<b}\\label{l1}", "\\tag*{>\"'}\\label{l<\"4}", "\\label{l<\"4}", "\\label{é]&}"])); }
        }
        if self.r.chance(1, 6) { s.push_str("\\\\"); }
        self.table = t;
        s
    }
    pub fn env(&mut self, d: usize) -> String {
        let e = *self.r.pick(&TABLES);
        let spec = match e { "array" | "darray" | "subarray" => format!("{{{}}}", self.r.pick(&["c", "lcr", "|c|c|", "l|r", "||c:r", "c c", "r|", ":l:c:"])), _ => String::new() };
        let amp = !matches!(e, "equation" | "equation*" | "gather" | "gather*" | "gathered" | "multline");
        let hl = e.contains("array") || e.contains("atrix");
        let num = matches!(e, "align" | "align*" | "equation" | "equation*" | "gather" | "gather*" | "multline");
        format!("\\begin{{{e}}}{spec}{}\\end{{{e}}}", self.rows(d, amp, hl, num))
    }
    pub fn text(&mut self) -> String {
        let n = self.r.below(6);
        (0..n).map(|_| *self.r.pick(&["a", "b c", " ", "\\&", "\\%", "\\_", "-", "--", "``q''", "é", "\\'e", "\\\"o", "\\ss ", "{x}", "\\textbf{b}", "\\ldots ", "~", "\\large ", "1", "<", ">", "'", "\\textit{i}", "\\#", "\\{", "日", "\\sout{z}", "\\underline{u}"])).collect()
    }
    pub fn atom(&mut self) -> String {
        match self.r.below(12) {
            0..=3 => self.r.pick(&CHARS).to_string(),
            4 => self.kind("Relation"), 5 => self.kind("Letter"), 6 => self.kind("BinaryOp"), 7 => self.kind("ForceBinaryOp"),
            8 => self.kind("UprightLetter"), 9 => { let k = *self.r.pick(&["Ord", "Open", "Close", "ForceRelation", "ForcePunctuation", "ForceOpen", "ForceClose", "ForceOrd", "MathOrTextMode", "Space", "PseudoOperator", "PseudoOperatorLimits"]); self.kind(k) }
            10 => self.kind("Op"),
            _ => char::from(self.r.range(33, 126) as u8).to_string().replace(['\\', '{', '}', '#', '%', '$', '&', '^', '_'], "v"),
        }
    }
    pub fn item(&mut self, d: usize) -> String {
        self.budget = self.budget.saturating_sub(1);
        if d == 0 || self.budget == 0 { return self.atom(); }
        let d = d - 1;
        match self.r.below(46) {
            0..=13 => self.atom(),
            14 | 15 => { let b = self.atom(); format!("{b}^{}", self.arg(d)) }
            16 | 17 => { let b = self.atom(); format!("{b}_{}", self.arg(d)) }
            18 => { let b = self.atom(); format!("{b}_{}^{}", self.arg(d), self.arg(d)) }
            19 => self.group(d),
            20 => format!("{}{}{}", self.kind("Frac"), self.arg(d), self.arg(d)),
            21 => format!("{}{}{}", self.kind("Binom"), self.arg(d), self.arg(d)),
            22 => if self.r.chance(1, 2) { format!("\\sqrt{}", self.arg(d)) } else { format!("\\sqrt[{}]{}", self.seq(0), self.arg(d)) },
            23 => format!("\\left{}{}\\right{}", self.delim(), { let t = std::mem::replace(&mut self.table, false); let s = self.seq(d); self.table = t; s }, self.delim()),
            24 => format!("{}{}", self.kind("Big"), self.delim()),
            25 => format!("{}{}", self.kind("Accent"), self.arg(d)),
            26 => format!("{}{}", self.kind("Transform"), self.arg(d)),
            27 => format!("{}{}", self.kind("MathClass"), self.arg(d)),
            28 => format!("{}{{{}}}", self.kind("Text"), self.text()),
            29 => { let k = *self.r.pick(&["Overset", "Underset"]); format!("{}{}{}", self.kind(k), self.arg(d), self.arg(d)) }
            30 => format!("{}{}", self.kind("XArrow"), self.arg(d)),
            31 => format!("{}{}{}", self.kind("OverUnderBrace"), self.arg(d), if self.r.chance(1, 2) { format!("^{}_{}", self.arg(d), self.arg(d)) } else { String::new() }),
            32 => self.env(d),
            33 => format!("{}{}", self.kind("Style"), self.seq(d)),
            34 => format!("\\color{}{}", self.r.pick(&["{red}", "[HTML]{12aB9f}", "[RGB]{1,2,3}", "[rgb]{.5,0,1}"]), self.seq(d)),
            35 => format!("{}{}", self.kind("Phantom"), self.arg(d)),
            36 => format!("{}{}", self.kind("Enclose"), self.arg(d)),
            37 => format!("\\hspace{{{}}}\\kern{}", self.length(), self.length()),
            38 => format!("\\operatorname{{{}}}_{}", self.text(), self.arg(d)),
            39 => format!("\\genfrac{}{}{{{}}}{{{}}}{}{}", *self.r.pick(&["{(}", "{}", "["]), *self.r.pick(&["{)}", "{}", "]"]), *self.r.pick(&["", "1pt", "0pt"]), *self.r.pick(&["", "0", "1", "2", "3"]), self.arg(d), self.arg(d)),
            40 => { let k = *self.r.pick(&["InfixGenFrac", "TransformSwitch", "Limits"]); if k == "Limits" { format!("{}{}_{}", self.kind("Op"), self.kind(k), self.arg(d)) } else { format!("{{{}{}{}}}", self.seq(d), self.kind(k), self.seq(d)) } }
            41 => format!("\\not{}", self.atom()),
            42 => { let n = *self.r.pick(&of_kind("CustomCmd")); let c = cmds().iter().find(|c| c.name == n).unwrap(); let k = c.rest.trim_start_matches('(').chars().next().and_then(|c| c.to_digit(10)).unwrap_or(0); let mut s = cs(n); for _ in 0..k { s.push_str(&self.arg(d)); } s }
            43 => format!("\\mathchoice{}{}{}{}", self.arg(d), self.arg(d), self.arg(d), self.arg(d)),
            44 => match self.r.below(6) { 0 => format!("\\prescript{}{}{}", self.arg(d), self.arg(d), self.arg(d)), 1 => format!("\\sideset{{_{}}}{{^{}}}\\sum ", self.arg(d), self.arg(d)), 2 => format!("\\raisebox{{2pt}}{{{}}}", self.text()), 3 => format!("\\cramped{}", self.arg(d)), 4 => self.r.pick(&["\\eqref{l1}", "\\eqref{l3}", "\\eqref{l<\"4}", "\\eqref{<&>}"]).to_string(), _ => format!("\\Braket{{{}|{}}}", self.seq(d), self.seq(d)) },
            _ => if self.table && self.r.chance(1, 2) { "&".into() } else { format!("\\middle{}", self.delim()) },
        }
    }
}

pub fn formula(r: &mut Rng, budget: usize, depth: usize) -> String { let mut g = Gen::new(r, budget); let mut s = g.seq(depth); while s.is_empty() { s = g.item(depth); if g.budget == 0 { break; } } s }

/// Random tokens without any grammar.
pub fn soup(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match r.below(14) {
            0..=2 => { let all = cmds(); let c = &all[r.below(all.len())]; s.push_str(&cs(c.name)); }
            3 | 4 => s.push_str(r.pick(&["{", "}", "[", "]", "^", "_", "&", "\\\\", "$", "#", "#1", "#2", "%", "%\n", "'", "|", "~"])),
            5 => s.push_str(&format!("\\begin{{{}}}", r.pick(&TABLES))),
            6 => s.push_str(&format!("\\end{{{}}}", r.pick(&TABLES))),
            7 => s.push_str(r.pick(&["\\left(", "\\right)", "\\left.", "\\right.", "\\middle|", "\\big(", "{c|c}", "{1em}", "1pt", "[1]", "{}"])),
            8 => s.push_str(r.pick(&["\\newcommand{\\q}[1]{#1}", "\\def\\q#1{#1}", "\\let\\q=\\alpha ", "\\q ", "\\global", "\\renewcommand\\q{x}", "\\providecommand{\\w}{\\q}", "\\w ", "\\gdef\\w{\\q}", "\\def\\q#1#2{#2#1}"])),
            9 => { let c = char::from_u32(*r.pick(&[0u32, 1, 0x7f, 0x80, 0xa0, 0xad, 0x300, 0x338, 0x3a9, 0x2032, 0x2057, 0x20d2, 0xfe00, 0xfe0f, 0x1d400, 0x1f600, 0x10ffff, 0xffff, 0xe000, 0x2260])).unwrap(); s.push(c); }
            10 => { let c = loop { if let Some(c) = char::from_u32(r.below(0x30000) as u32) { break c; } }; s.push(c); }
            _ => s.push_str(r.pick(&CHARS)),
        }
    }
    s
}

/// A corpus entry, changed at random.
pub fn mutated(r: &mut Rng) -> String {
    let c = corpus();
    let mut s: Vec<char> = r.pick(c).chars().collect();
    for _ in 0..r.below(4) {
        let n = s.len();
        match r.below(5) {
            0 if n > 0 => { let i = r.below(n); s.remove(i); }
            1 => { let t: Vec<char> = r.pick(&CHARS).chars().collect(); let i = r.below(n + 1); for (k, c) in t.into_iter().enumerate() { s.insert(i + k, c); } }
            2 if n > 1 => { let i = r.below(n); let j = (i + 1 + r.below(6)).min(n); let p: Vec<char> = s[i..j].to_vec(); let k = r.below(n); for (q, c) in p.into_iter().enumerate() { s.insert(k + q, c); } }
            3 => { let t: Vec<char> = r.pick(c).chars().collect(); let i = r.below(n + 1); let tail = s.split_off(i); let k = r.below(t.len() + 1); s.extend_from_slice(&t[k..]); if r.chance(1, 2) { s.extend(tail); } }
            _ => { let k = r.below(n + 1); s.truncate(k); }
        }
    }
    s.into_iter().collect()
}

/// Anything.
pub fn any_input(r: &mut Rng) -> String {
    match r.below(10) {
        0..=4 => { let b = 4 + r.below(30); let d = 1 + r.below(5); formula(r, b, d) }
        5 | 6 => { let n = 1 + r.below(14); soup(r, n) }
        7 => { let mut s = formula(r, 10, 3); let t = soup(r, 2); let i = r.below(s.len() + 1); if s.is_char_boundary(i) { s.insert_str(i, &t); } s }
        _ => mutated(r),
    }
}

pub fn config_named(r: &mut Rng) -> (MathCoreConfig, String) {
    let mut c = MathCoreConfig::default();
    c.pretty_print = match r.below(3) { 0 => PrettyPrint::Never, 1 => PrettyPrint::Always, _ => PrettyPrint::Auto };
    c.xml_namespace = r.chance(1, 3);
    c.ignore_unknown_commands = r.chance(1, 3);
    c.annotation = r.chance(1, 3);
    c.allow_unreliable_rendering = r.chance(1, 3);
    c.global_group = r.chance(1, 3);
    c.unicode_substitution = if r.chance(1, 2) { UnicodeSubstitution::Never } else { UnicodeSubstitution::Conventional };
    c.indentation = match r.below(3) { 0 => Indentation::Spaces(r.below(9)), 1 => Indentation::Keyword(IndentKeyword::Tab), _ => Indentation::default() };
    if r.chance(1, 4) { c.id_prefix = "p-".into(); }
    if r.chance(1, 3) { c.macros = vec![("half".into(), "\\frac12".into()), ("pair".into(), "(#1,#2)".into()), ("q".into(), "\\mathbf{#1}".into())]; }
    if r.chance(1, 6) { c.max_expansions = MaxExpansions(r.below(5) as u32); }
    let _: &CssClassNames = &c.css_classes;
    let d = format!("pretty={:?} ns={} ignore_unknown={} annotation={} unreliable={} global_group={} unicode={:?} indent={:?} prefix={:?} macros={:?} max={:?}",
        c.pretty_print, c.xml_namespace, c.ignore_unknown_commands, c.annotation, c.allow_unreliable_rendering, c.global_group, c.unicode_substitution, c.indentation, c.id_prefix, c.macros, c.max_expansions);
    (c, d)
}
pub fn display(r: &mut Rng) -> MathDisplay { if r.chance(1, 2) { MathDisplay::Block } else { MathDisplay::Inline } }
pub fn conv(c: MathCoreConfig) -> LatexToMathML { match LatexToMathML::new(c) { Ok(l) => l, Err(e) => panic!("configuration rejected: {}", e.0.error_message()) } }
pub fn plain() -> LatexToMathML { conv(MathCoreConfig::default()) }
pub fn go(l: &LatexToMathML, s: &str, d: MathDisplay) -> Result<String, Box<LatexError>> { l.convert_with_local_state(s, d).map(|r| r.mathml) }
pub fn block(l: &LatexToMathML, s: &str) -> Result<String, Box<LatexError>> { go(l, s, MathDisplay::Block) }

/// XML forbids these.
pub fn xml_ok(s: &str) -> bool { s.chars().all(|c| matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)) }
