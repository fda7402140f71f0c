//! A strict reader for the XML that MathML output consists of (elements, attributes, text, references).
#[derive(Debug, Clone, PartialEq)]
pub enum Item { El(El), Text(String) }
#[derive(Debug, Clone, PartialEq)]
pub struct El { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Item> }

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()) }
    pub fn els(&self) -> Vec<&El> { self.kids.iter().filter_map(|k| if let Item::El(e) = k { Some(e) } else { None }).collect() }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids { match k { Item::Text(t) => s.push_str(t), Item::El(e) => s.push_str(&e.text()) } }
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) { f(self); for e in self.els() { e.walk(f); } }
    pub fn find_all<'a>(&'a self, name: &str) -> Vec<&'a El> {
        let mut v = vec![];
        self.walk(&mut |e| if e.name == name { v.push(e) });
        v
    }
}

struct P<'a> { s: &'a [u8], src: &'a str, i: usize }

pub fn name_start(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' }

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let a = (0..=self.i.min(self.src.len())).rev().find(|&i| self.src.is_char_boundary(i)).unwrap_or(0);
        Err(format!("not well-formed: {m} at byte {} near {:?}", self.i, self.src[a..].chars().take(30).collect::<String>()))
    }
    fn ws(&mut self) -> bool { let a = self.i; while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') { self.i += 1; } self.i > a }
    fn name(&mut self) -> Result<String, String> {
        let a = self.i;
        if self.i >= self.s.len() || !name_start(self.s[self.i]) { return self.err("name expected"); }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'-' | b'_' | b':' | b'.')) { self.i += 1; }
        Ok(self.src[a..self.i].to_string())
    }
    fn reference(&mut self) -> Result<char, String> {
        // at '&'
        let Some(e) = self.src[self.i..].find(';') else { return self.err("bare &") };
        let r = &self.src[self.i + 1..self.i + e];
        let c = match r {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            _ => {
                let n = if let Some(h) = r.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = r.strip_prefix('#') { d.parse().ok() } else { None };
                match n.and_then(char::from_u32) { Some(c) => c, None => return self.err("bad character reference") }
            }
        };
        self.i += e + 1;
        Ok(c)
    }
    fn element(&mut self, depth: usize) -> Result<El, String> {
        if depth > 20000 { return self.err("too deep"); }
        if self.s.get(self.i) != Some(&b'<') { return self.err("< expected"); }
        self.i += 1;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            match self.s.get(self.i) {
                Some(b'>') => { self.i += 1; break; }
                Some(b'/') => {
                    if self.s.get(self.i + 1) != Some(&b'>') { return self.err("/> expected"); }
                    self.i += 2;
                    return Ok(El { name, attrs, kids: vec![] });
                }
                Some(_) if sp => {
                    let n = self.name()?;
                    if attrs.iter().any(|a| a.0 == n) { return self.err(&format!("attribute {n} repeated")); }
                    if self.s.get(self.i) != Some(&b'=') { return self.err("= expected"); }
                    self.i += 1;
                    let q = match self.s.get(self.i) { Some(&q @ (b'"' | b'\'')) => q, _ => return self.err("quote expected") };
                    self.i += 1;
                    let mut v = String::new();
                    loop {
                        match self.s.get(self.i) {
                            None => return self.err("unterminated attribute"),
                            Some(&c) if c == q => { self.i += 1; break; }
                            Some(b'<') => return self.err("< in attribute"),
                            Some(b'&') => v.push(self.reference()?),
                            Some(_) => { let c = self.src[self.i..].chars().next().unwrap(); v.push(c); self.i += c.len_utf8(); }
                        }
                    }
                    attrs.push((n, v));
                }
                _ => return self.err("bad tag"),
            }
        }
        let mut kids = vec![];
        let mut t = String::new();
        loop {
            match self.s.get(self.i) {
                None => return self.err(&format!("<{name}> not closed")),
                Some(b'<') if self.s.get(self.i + 1) == Some(&b'/') => {
                    if !t.is_empty() { kids.push(Item::Text(std::mem::take(&mut t))); }
                    self.i += 2;
                    let n = self.name()?;
                    self.ws();
                    if self.s.get(self.i) != Some(&b'>') { return self.err("> expected"); }
                    self.i += 1;
                    if n != name { return self.err(&format!("<{name}> closed by </{n}>")); }
                    return Ok(El { name, attrs, kids });
                }
                Some(b'<') => {
                    if !t.is_empty() { kids.push(Item::Text(std::mem::take(&mut t))); }
                    kids.push(Item::El(self.element(depth + 1)?));
                }
                Some(b'&') => t.push(self.reference()?),
                Some(_) => {
                    if self.src[self.i..].starts_with("]]>") { return self.err("]]> in text"); }
                    let c = self.src[self.i..].chars().next().unwrap();
                    t.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
}

/// One element and nothing else.
pub fn parse(s: &str) -> Result<El, String> {
    let mut p = P { s: s.as_bytes(), src: s, i: 0 };
    let e = p.element(0)?;
    if p.i != s.len() { return p.err("text after the root element"); }
    Ok(e)
}
/// A fragment: any number of elements.
pub fn parse_many(s: &str) -> Result<Vec<El>, String> {
    let e = parse(&format!("<x>{s}</x>"))?;
    Ok(e.els().into_iter().cloned().collect())
}


/// Structural rules of MathML Core for what math-core writes.
pub fn mathml_rules(root: &El) -> Result<(), String> {
    if root.name != "math" { return Err(format!("root element is {}", root.name)); }
    let mut bad: Option<String> = None;
    root.walk(&mut |e| {
        if bad.is_some() { return; }
        let n = e.els().len();
        let want = match e.name.as_str() {
            "mfrac" | "mroot" | "msub" | "msup" | "munder" | "mover" => Some(2),
            "msubsup" | "munderover" => Some(3),
            "semantics" => Some(2),
            _ => None,
        };
        if let Some(w) = want && n != w { bad = Some(format!("<{}> has {n} children instead of {w}", e.name)); return; }
        // (element content has no text apart from blanks)
        let container = matches!(e.name.as_str(), "math" | "mrow" | "mstyle" | "mpadded" | "mphantom" | "msqrt" | "mspace" | "mfrac" | "mroot" | "msub" | "msup" | "msubsup" | "munder" | "mover" | "munderover" | "mmultiscripts" | "mprescripts" | "none" | "mtable" | "mtr" | "mtd" | "semantics" | "menclose");
        if container {
            for k in &e.kids { if let Item::Text(t) = k && !t.trim_matches([' ', '\n', '\t']).is_empty() { bad = Some(format!("text {t:?} directly inside <{}>", e.name)); return; } }
        }
        match e.name.as_str() {
            "mtr" => for c in e.els() { if c.name != "mtd" { bad = Some(format!("<{}> in <mtr>", c.name)); } },
            "mtable" => for c in e.els() { if c.name != "mtr" { bad = Some(format!("<{}> in <mtable>", c.name)); } },
            "mmultiscripts" => {
                let els = e.els();
                let p = els.iter().position(|x| x.name == "mprescripts");
                let (post, pre) = match p { Some(p) => (p as isize - 1, els.len() as isize - p as isize - 1), None => (els.len() as isize - 1, 0) };
                if post < 0 || post % 2 != 0 || pre % 2 != 0 { bad = Some(format!("<mmultiscripts> with {post} post and {pre} prescripts")); }
                if els.iter().filter(|x| x.name == "mprescripts").count() > 1 { bad = Some("two <mprescripts>".into()); }
            }
            "mi" | "mn" | "mo" => for c in e.els() { bad = Some(format!("<{}> in <{}>", c.name, e.name)); },
            _ => {}
        }
    });
    match bad { Some(b) => Err(b), None => Ok(()) }
}
