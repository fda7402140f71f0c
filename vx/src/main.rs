//! vx: mechanical extraction of functions from /repo into single-file Verus units.
//!
//! `vx REPO UNIT.vx OUT.rs OUT.json`
//!
//! A unit file is Verus text (specifications, lemmas, trusted stand-ins for std/dependency
//! functions) in which `//@` directives name the items of the repository that are to be inserted,
//! and the contracts that are to be attached to them.  The text of the inserted items always comes
//! from the repository's current source; the rewrites applied on the way are syntax-directed and
//! listed in the JSON output.

use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
use quote::{ToTokens, format_ident, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

mod desugar;
mod fmtlit;
mod print;
mod reader;

pub type Res<T> = std::result::Result<T, String>;

#[derive(Default, Debug)]
pub struct FnDirs {
    pub path: String,
    pub rename: Option<String>,
    pub spec: String,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub vis: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub beforeloop: BTreeMap<usize, String>,
    pub afterloop: BTreeMap<usize, String>,
    pub afterif: BTreeMap<usize, String>,
    pub aftermatch: BTreeMap<usize, String>,
    pub forvar: BTreeMap<usize, String>,
    pub start: String,
    pub end: String,
    pub afterlet: Vec<(String, usize, String)>,
    pub aftercall: Vec<(String, usize, String)>,
    pub beforecall: Vec<(String, usize, String)>,
    pub subst: Vec<(String, String, bool)>,
    pub opts: BTreeSet<String>,
    pub writer: String,
    pub sig: Option<String>,
    pub arms: Vec<String>,
    pub outline: Option<(String, String)>,
    pub outlinestart: String,
    pub outlineattrs: Vec<String>,
    pub canary: bool,
}

fn read_source(repo: &str, file: &str, cache: &mut BTreeMap<String, File>) -> Res<File> {
    if let Some(f) = cache.get(file) {
        return Ok(f.clone());
    }
    let p = format!("{repo}/{file}");
    let text = std::fs::read_to_string(&p).map_err(|e| format!("cannot read {p}: {e}"))?;
    let mut f = syn::parse_file(&text).map_err(|e| format!("cannot parse {p}: {e}"))?;
    // items which a macro of the same file writes
    let macros = file_macros(&f);
    let mut items = vec![];
    for it in f.items {
        if let Item::Macro(m) = &it
            && m.ident.is_none()
            && let Some(n) = m.mac.path.get_ident()
            && let Some((pat, body)) = macros.get(&n.to_string())
            && let Ok(ts) = expand_macro(pat, body, m.mac.tokens.clone())
            && let Ok(x) = syn::parse2::<File>(ts)
        { items.extend(x.items); continue; }
        items.push(it);
    }
    f.items = items;
    cache.insert(file.to_string(), f.clone());
    Ok(f)
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().replace(' ', "") == "cfg(test)"
    })
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        t => t.to_token_stream().to_string(),
    }
}

pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub line: usize,
}

fn find_nested(block: &Block, name: &str) -> Option<Found> {
    struct V<'a>(&'a str, Option<Found>);
    impl<'ast, 'a> syn::visit::Visit<'ast> for V<'a> {
        fn visit_item_fn(&mut self, f: &'ast ItemFn) {
            if f.sig.ident == self.0 && self.1.is_none() {
                self.1 = Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: f.sig.ident.span().start().line });
            }
            syn::visit::visit_item_fn(self, f);
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, block);
    v.1
}

/// Find a function: `name`, `Type::name`, `<Trait>Type::name`, `...>>nested`.
pub fn find_fn(file: &File, path: &str) -> Res<Found> {
    // `const:NAME`: the initializer of a constant, as the body of a function
    if let Some(n) = path.strip_prefix("const:") {
        let (ty, expr) = match find_item(file, "const", n).or_else(|_| find_item(file, "static", n))? {
            Item::Const(c) => (c.ty, c.expr),
            Item::Static(c) => (c.ty, c.expr),
            _ => return Err(format!("lost anchor: {n} is no constant")),
        };
        let id = Ident::new(&n.to_lowercase(), Span::call_site());
        return Ok(Found { sig: parse_quote!(fn #id() -> #ty), block: parse_quote!({ #expr }), line: 0 });
    }
    // `let:FN:NAME`: the value a `let` statement gives to NAME, as `Ok(VxLet::Value(..))`;
    // leaving a labelled block around it is `Ok(VxLet::Break(..))`
    if let Some(r) = path.strip_prefix("let:") {
        let (f, v) = r.rsplit_once(':').ok_or("bad path")?;
        let o = find_fn(file, f)?;
        struct L<'a>(&'a str, Vec<Expr>);
        struct N<'a>(&'a str, bool);
        impl<'ast> syn::visit::Visit<'ast> for N<'_> { fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { if p.ident == self.0 { self.1 = true; } syn::visit::visit_pat_ident(self, p); } }
        impl<'ast> syn::visit::Visit<'ast> for L<'_> {
            fn visit_local(&mut self, l: &'ast syn::Local) {
                let mut n = N(self.0, false);
                syn::visit::Visit::visit_pat(&mut n, &l.pat);
                if let (true, Some(i)) = (n.1, &l.init) { if i.diverge.is_none() { self.1.push((*i.expr).clone()); } }
                syn::visit::visit_local(self, l);
            }
        }
        let mut l = L(v, vec![]);
        syn::visit::Visit::visit_block(&mut l, &o.block);
        let [e] = &l.1[..] else { return Err(format!("lost anchor: {} `let {v}` in {f}", l.1.len())) };
        let mut e = e.clone();
        LeaveBlock(None, true).visit_expr_mut(&mut e);
        return Ok(Found { sig: o.sig, block: parse_quote!({ let vx_value = #e; Ok(VxLet::Value(vx_value)) }), line: o.line });
    }
    // `value:FN:VARIANT`: like `arm:`, for an arm that has a value: `Ok` of it; `class` is a `&mut` parameter
    if let Some(r) = path.strip_prefix("value:") {
        let mut found = find_fn(file, &format!("arm:{r}"))?;
        let Some(Stmt::Expr(Expr::Match(m), _)) = found.block.stmts.first_mut() else { return Err("bad arm".into()) };
        let arm = &mut m.arms[0];
        let mut body = (*arm.body).clone();
        if let Expr::Block(b) = &mut body {
            if let Some(l) = b.label.take() { LeaveBlock(Some(l.name.ident.to_string()), false).visit_block_mut(&mut b.block); }
        }
        ClassParam.visit_expr_mut(&mut body);
        arm.body = Box::new(body);
        let m = m.clone();
        found.block = parse_quote!({ let vx_value = #m; Ok(vx_value) });
        return Ok(found);
    }
    // `arm:FN:VARIANT`: one arm of a match of a function, as the body of a function of `vx_tok`
    if let Some(r) = path.strip_prefix("arm:") {
        let (f, v) = r.rsplit_once(':').ok_or("bad path")?;
        let o = find_fn(file, f)?;
        struct A<'a>(&'a str, Vec<(usize, Arm)>, usize);
        // `V` or, where that is not enough, `Type.V`
        fn ends(p: &syn::Path, v: &str) -> bool {
            let (t, v) = match v.split_once('.') { Some((t, v)) => (Some(t), v), None => (None, v) };
            let n = p.segments.len();
            n > 1 && p.segments[n - 1].ident == v && t.is_none_or(|t| p.segments[n - 2].ident == t)
        }
        fn names(p: &Pat, v: &str) -> bool {
            match p {
                Pat::Or(o) => o.cases.iter().any(|p| names(p, v)),
                Pat::Ident(i) => i.subpat.as_ref().is_some_and(|(_, p)| names(p, v)),
                Pat::Paren(p) => names(&p.pat, v),
                Pat::Path(p) => ends(&p.path, v),
                Pat::TupleStruct(t) => ends(&t.path, v),
                Pat::Struct(t) => ends(&t.path, v),
                _ => false,
            }
        }
        impl<'ast> syn::visit::Visit<'ast> for A<'_> {
            fn visit_arm(&mut self, a: &'ast Arm) {
                if names(&a.pat, self.0) { self.1.push((self.2, a.clone())); }
                self.2 += 1;
                syn::visit::visit_arm(self, a);
                self.2 -= 1;
            }
        }
        let mut a = A(v, vec![], 0);
        syn::visit::Visit::visit_block(&mut a, &o.block);
        // the outermost one
        let least = a.1.iter().map(|a| a.0).min().unwrap_or(0);
        a.1.retain(|a| a.0 == least);
        let [(_, arm)] = &a.1[..] else { return Err(format!("lost anchor: {} arms for {v} in {f}", a.1.len())) };
        let mut arm = arm.clone();
        arm.comma = Some(Default::default());
        let line = o.line;
        return Ok(Found { sig: o.sig, block: parse_quote!({ match vx_tok { #arm _ => vx_unreachable() } }), line });
    }
    if let Some((outer, inner)) = path.split_once(">>") {
        let o = find_fn(file, outer)?;
        if inner.contains("::") {
            let items = o.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
            return find_fn(&File { shebang: None, attrs: vec![], items }, inner);
        }
        return find_nested(&o.block, inner).ok_or_else(|| format!("lost anchor: no nested fn {inner} in {outer}"));
    }
    let (tr, rest) = if let Some(r) = path.strip_prefix('<') {
        let (t, r) = r.split_once('>').ok_or("bad path")?;
        (Some(t.to_string()), r)
    } else {
        (None, path)
    };
    let mut found = Vec::new();
    fn items(its: &[Item], tr: &Option<String>, rest: &str, found: &mut Vec<Found>) {
        for it in its {
            match it {
                Item::Fn(f) if tr.is_none() && !rest.contains("::") && f.sig.ident == rest && !is_test(&f.attrs) => {
                    found.push(Found { sig: f.sig.clone(), block: (*f.block).clone(), line: f.sig.ident.span().start().line });
                }
                Item::Impl(i) if !is_test(&i.attrs) => {
                    let Some((ty, m)) = rest.split_once("::") else { continue };
                    if type_name(&i.self_ty) != ty { continue; }
                    match (&i.trait_, tr) {
                        (None, None) => {}
                        (Some((_, p, _)), Some(t)) if p.segments.last().is_some_and(|s| {
                            // `From~X` is `From<X>`
                            let (t, a) = t.split_once('~').unwrap_or((t, ""));
                            s.ident == t && (a.is_empty() || s.arguments.to_token_stream().to_string().replace(' ', "").replace("<'_>", "") == format!("<{a}>"))
                        }) => {}
                        _ => continue,
                    }
                    for ii in &i.items {
                        if let ImplItem::Fn(f) = ii
                            && f.sig.ident == m
                        {
                            found.push(Found { sig: f.sig.clone(), block: f.block.clone(), line: f.sig.ident.span().start().line });
                        }
                    }
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content {
                        items(its, tr, rest, found);
                    }
                }
                _ => {}
            }
        }
    }
    items(&file.items, &tr, rest, &mut found);
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("lost anchor: function {path} not found")),
        n => Err(format!("lost anchor: {n} functions match {path}")),
    }
}

fn strip_attrs_item(it: &mut Item) {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
    }
    S.visit_item_mut(it);
}

fn find_item(file: &File, kind: &str, name: &str) -> Res<Item> {
    let mut i = find_item_raw(file, kind, name)?;
    strip_attrs_item(&mut i);
    Ok(i)
}
fn find_item_raw(file: &File, kind: &str, name: &str) -> Res<Item> {
    fn go(its: &[Item], kind: &str, name: &str, out: &mut Vec<Item>) {
        for it in its {
            let ok = match (kind, it) {
                ("struct", Item::Struct(s)) => s.ident == name,
                ("enum", Item::Enum(s)) => s.ident == name,
                ("const", Item::Const(s)) => s.ident == name,
                ("static", Item::Static(s)) => s.ident == name,
                ("type", Item::Type(s)) => s.ident == name,
                _ => false,
            };
            if ok { out.push(it.clone()); }
            match it {
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, its)) = &m.content { go(its, kind, name, out); }
                }
                // constants local to a function
                Item::Fn(f) => go(&local_items(&f.block), kind, name, out),
                Item::Impl(i) => for ii in &i.items {
                    match ii {
                        ImplItem::Fn(f) => go(&local_items(&f.block), kind, name, out),
                        ImplItem::Const(c) if kind == "const" && c.ident == name => {
                            let (ident, ty, expr) = (&c.ident, &c.ty, &c.expr);
                            out.push(parse_quote!(const #ident: #ty = #expr;));
                        }
                        _ => {}
                    }
                },
                _ => {}
            }
        }
    }
    let mut out = Vec::new();
    go(&file.items, kind, name, &mut out);
    match out.len() {
        1 => Ok(out.pop().unwrap()),
        n => Err(format!("lost anchor: {n} items match {kind} {name}")),
    }
}

/// Items declared anywhere inside a function body.
fn local_items(b: &syn::Block) -> Vec<Item> {
    struct V(Vec<Item>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_item(&mut self, i: &'a Item) { self.0.push(i.clone()); }
    }
    let mut v = V(Vec::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn make_pub(it: &mut Item) {
    match it {
        Item::Struct(s) => { s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); } }
        Item::Enum(s) => s.vis = parse_quote!(pub),
        Item::Const(s) => { s.vis = parse_quote!(pub); if let syn::Type::Reference(r) = &mut *s.ty && r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
        Item::Static(s) => { s.vis = parse_quote!(pub); if let syn::Type::Reference(r) = &mut *s.ty && r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } }
        Item::Type(s) => s.vis = parse_quote!(pub),
        _ => {}
    }
}

/// Substitute exact token sequences.
pub fn subst_tokens(ts: TokenStream, from: &[String], to: &TokenStream, n: &mut usize) -> TokenStream {
    fn flat(ts: &TokenStream, out: &mut Vec<String>) {
        for t in ts.clone() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", ""),
                    };
                    if !o.is_empty() { out.push(o.into()); }
                    flat(&g.stream(), out);
                    if !c.is_empty() { out.push(c.into()); }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        // try to match starting here: consume token trees until the flattening covers `from`
        let mut acc = Vec::new();
        let mut j = i;
        let mut ok = false;
        while j < toks.len() && acc.len() < from.len() {
            flat(&TokenStream::from(toks[j].clone()), &mut acc);
            j += 1;
            if acc.len() > from.len() || acc[..] != from[..acc.len()] { break; }
            if acc.len() == from.len() { ok = true; break; }
        }
        if ok {
            out.extend(to.clone());
            *n += 1;
            i = j;
            continue;
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst_tokens(g.stream(), from, to, n));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn flat_tokens(s: &str) -> Res<Vec<String>> {
    let ts: TokenStream = s.parse().map_err(|e| format!("bad token pattern {s}: {e}"))?;
    let mut out = Vec::new();
    fn flat(ts: TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", ""),
                    };
                    if !o.is_empty() { out.push(o.to_string()); }
                    flat(g.stream(), out);
                    if !c.is_empty() { out.push(c.to_string()); }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    flat(ts, &mut out);
    Ok(out)
}

/// The single-rule `macro_rules!` of a file: name -> (pattern, body).
fn file_macros(f: &File) -> BTreeMap<String, (TokenStream, TokenStream)> {
    let mut out = BTreeMap::new();
    for it in &f.items {
        let Item::Macro(m) = it else { continue };
        let (true, Some(n)) = (m.mac.path.is_ident("macro_rules"), &m.ident) else { continue };
        let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        if let [TokenTree::Group(p), TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Group(body), rest @ ..] = &toks[..]
            && a.as_char() == '=' && b.as_char() == '>' && rest.len() <= 1
        { out.insert(n.to_string(), (p.stream(), body.stream())); }
    }
    out
}
pub fn expand_macro(pat: &TokenStream, body: &TokenStream, args: TokenStream) -> Res<TokenStream> {
    let p: Vec<TokenTree> = pat.clone().into_iter().collect();
    let a: Vec<TokenTree> = args.into_iter().collect();
    let mut env: BTreeMap<String, TokenStream> = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let dollar = |t: &TokenTree| matches!(t, TokenTree::Punct(q) if q.as_char() == '$');
    while i < p.len() {
        if dollar(&p[i]) {
            match &p.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    let next = p.get(i + 4).map(|t| t.to_string());
                    let start = j;
                    while j < a.len() && Some(a[j].to_string()) != next { j += 1; }
                    env.insert(n.to_string(), a[start..j].iter().cloned().collect());
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    // `$(#[$meta:meta])*`: attributes, which are dropped
                    if matches!(&inner[..], [TokenTree::Punct(h), TokenTree::Group(_)] if h.as_char() == '#') {
                        while matches!((a.get(j), a.get(j + 1)), (Some(TokenTree::Punct(h)), Some(TokenTree::Group(_))) if h.as_char() == '#') { j += 2; }
                        i += 3;
                        continue;
                    }
                    let [d, TokenTree::Ident(n), _, TokenTree::Ident(k)] = &inner[..] else { return Err("repetition".into()) };
                    if !dollar(d) || k != "tt" || i + 3 != p.len() { return Err("repetition".into()); }
                    env.insert(format!("*{n}"), a[j..].iter().cloned().collect());
                    j = a.len();
                    i = p.len();
                }
                _ => return Err("pattern".into()),
            }
        } else {
            if a.get(j).map(|t| t.to_string()) != Some(p[i].to_string()) { return Err("arguments".into()); }
            i += 1;
            j += 1;
        }
    }
    if j != a.len() { return Err("arguments".into()); }
    fn sub(ts: TokenStream, env: &BTreeMap<String, TokenStream>) -> Res<TokenStream> {
        let t: Vec<TokenTree> = ts.into_iter().collect();
        let mut out: Vec<TokenTree> = vec![];
        let mut i = 0;
        while i < t.len() {
            match (&t[i], t.get(i + 1)) {
                (TokenTree::Punct(q), Some(TokenTree::Ident(n))) if q.as_char() == '$' => {
                    out.extend(env.get(&n.to_string()).ok_or("unbound")?.clone());
                    i += 2;
                }
                (TokenTree::Punct(q), Some(TokenTree::Group(g))) if q.as_char() == '$' && g.stream().into_iter().next().is_some_and(|t| t.to_string() == "#") => { i += 3; }
                (TokenTree::Punct(q), Some(TokenTree::Group(g))) if q.as_char() == '$' => {
                    let n = g.stream().into_iter().nth(1).map(|t| t.to_string()).unwrap_or_default();
                    out.extend(env.get(&format!("*{n}")).ok_or("unbound")?.clone());
                    i += 3;
                }
                (TokenTree::Group(g), _) => { out.push(TokenTree::Group(Group::new(g.delimiter(), sub(g.stream(), env)?))); i += 1; }
                (x, _) => { out.push(x.clone()); i += 1; }
            }
        }
        Ok(out.into_iter().collect())
    }
    sub(body.clone(), &env)
}

/// `bitflags NAME`: the struct a `bitflags!` call declares.
fn bitflags_text(f: &File, name: &str, attrs: &str) -> Res<String> {
    for it in &f.items {
        let Item::Macro(m) = it else { continue };
        if !m.mac.path.is_ident("bitflags") { continue; }
        let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        for w in t.windows(5) {
            let [TokenTree::Ident(s), TokenTree::Ident(n), TokenTree::Punct(_), TokenTree::Ident(ty), TokenTree::Group(g)] = w else { continue };
            if s != "struct" || n != name { continue; }
            let mut o = format!("{attrs}\npub struct {name} {{ pub b: {ty} }}\nimpl {name} {{\n");
            let body = g.stream().to_string();
            for c in body.split(';') {
                let c = c.trim();
                if c.is_empty() { continue; }
                let c = c.strip_prefix("const ").ok_or("unsupported bitflags entry")?;
                let (id, e) = c.split_once('=').ok_or("unsupported bitflags entry")?;
                let v: u64 = match e.split_once("<<") {
                    Some((a, b)) => a.trim().parse::<u64>().map_err(|_| "unsupported bitflags value")? << b.trim().parse::<u64>().map_err(|_| "unsupported bitflags value")?,
                    None => e.trim().parse().map_err(|_| "unsupported bitflags value")?,
                };
                o.push_str(&format!("    pub const {}: {name} = {name} {{ b: {v} }};\n", id.trim()));
            }
            o.push_str(&format!("    pub fn empty() -> (r: {name}) ensures r.b == 0 {{ {name} {{ b: 0 }} }}
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.b == 0) {{ self.b == 0 }}
    pub open spec fn has(self, o: {name}) -> bool {{ self.b & o.b == o.b }}
    pub fn contains(&self, o: {name}) -> (r: bool) ensures r == self.has(o) {{ self.b & o.b == o.b }}
    pub fn insert(&mut self, o: {name}) ensures final(self).b == old(self).b | o.b {{ self.b = self.b | o.b; }}
}}\n"));
            return Ok(o);
        }
    }
    Err(format!("lost anchor: no bitflags {name}"))
}

fn phf_text(f: &File, name: &str, fname: &str) -> Res<String> {
    let Item::Static(st) = find_item(f, "static", name)? else { unreachable!() };
    let Type::Path(tp) = &*st.ty else { return Err(format!("lost anchor: {name} is no phf map")) };
    let seg = tp.path.segments.last().unwrap();
    let PathArguments::AngleBracketed(ga) = &seg.arguments else { return Err(format!("lost anchor: {name} is no phf map")) };
    let tys: Vec<String> = ga.args.iter().map(|a| a.to_token_stream().to_string().replace(' ', "")).collect();
    let set = seg.ident == "Set";
    let (kspec, karg, kview) = match tys[0].as_str() {
        "&'staticstr" => ("Seq<char>", "&str", "k@"),
        "&'static[u8]" => ("Seq<u8>", "&[u8]", "k@"),
        "char" => ("char", "&char", "*k"),
        k => return Err(format!("unsupported phf key {k}")),
    };
    let vty = if set { "()".to_string() } else { tys[1].clone() };
    let Expr::Macro(m) = &*st.expr else { return Err(format!("lost anchor: {name} has no phf macro")) };
    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let mut entries: Vec<(String, String)> = vec![];
    let is_p = |t: &TokenTree, c: char| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
    let mut i = 0;
    while i < toks.len() {
        let mut key = vec![];
        while i < toks.len() && !is_p(&toks[i], ',') && !(is_p(&toks[i], '=') && i + 1 < toks.len() && is_p(&toks[i + 1], '>')) { key.push(toks[i].clone()); i += 1; }
        let mut val = vec![];
        if i < toks.len() && is_p(&toks[i], '=') {
            i += 2;
            while i < toks.len() && !is_p(&toks[i], ',') { val.push(toks[i].clone()); i += 1; }
        }
        i += 1;
        if key.is_empty() { continue; }
        let kt: TokenStream = key.into_iter().collect();
        let lit: Lit = syn::parse2(kt.clone()).map_err(|_| format!("unsupported phf key {kt}"))?;
        let k = match lit {
            Lit::Str(_) => format!("{kt}@"),
            Lit::ByteStr(b) => format!("seq![{}]", b.value().iter().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", ")),
            _ => kt.to_string(),
        };
        let vt: TokenStream = val.into_iter().collect();
        let v = if set { "()".to_string() } else { match syn::parse2::<Lit>(vt.clone()) { Ok(Lit::Byte(b)) => format!("{}u8", b.value()), _ => vt.to_string() } };
        entries.push((k, v));
    }
    if entries.is_empty() { return Err(format!("lost anchor: {name} is empty")); }
    // the order of the entries means nothing
    entries.sort();
    let mut t = format!("pub open spec fn {fname}_spec(k: {kspec}) -> Option<{vty}> {{\n");
    for (n, (k, v)) in entries.iter().enumerate() {
        t.push_str(&format!("    {}if k == {k} {{ Some({v}) }}\n", if n == 0 { "" } else { "else " }));
    }
    t.push_str("    else { None }\n}\n");
    t.push_str(&format!("#[verifier::external_body]\npub fn {fname}(k: {karg}) -> (r: Option<&'static {vty}>)\n    ensures match r {{ Some(v) => {fname}_spec({kview}) == Some(*v), None => {fname}_spec({kview}).is_none() }}\n{{ unimplemented!() }}\n"));
    Ok(t)
}

/// The names strum derives for the variants of an enum: (variant, name, ASCII case ignored).
fn strum_names(f: &File, name: &str) -> Res<Vec<(String, String, bool)>> {
    let Item::Enum(e) = find_item_raw(f, "enum", name)? else { unreachable!() };
    let read = |attrs: &[Attribute]| -> Res<(Option<String>, bool)> {
        let (mut ser, mut ci) = (None, false);
        for a in attrs.iter().filter(|a| a.path().is_ident("strum")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("ascii_case_insensitive") { ci = true; Ok(()) }
                else if m.path.is_ident("serialize") { let l: LitStr = m.value()?.parse()?; ser = Some(l.value()); Ok(()) }
                else { Err(m.error("strum")) }
            }).map_err(|_| format!("unsupported strum attribute in {name}"))?;
        }
        Ok((ser, ci))
    };
    let (eser, eci) = read(&e.attrs)?;
    if eser.is_some() { return Err(format!("unsupported strum attribute in {name}")); }
    let mut v = vec![];
    for x in &e.variants {
        if !matches!(x.fields, Fields::Unit) { return Err(format!("unsupported variant in {name}")); }
        let (ser, ci) = read(&x.attrs)?;
        v.push((x.ident.to_string(), ser.unwrap_or(x.ident.to_string()), ci || eci));
    }
    Ok(v)
}
/// `strum-parse ENUM FN`: what `EnumString` derives; `strum-str ENUM FN`: what `IntoStaticStr` derives.
fn strum_text(f: &File, name: &str, fname: &str, parse: bool, aslit: bool) -> Res<String> {
    let v = strum_names(f, name)?;
    let bytes = |s: &str| format!("seq![{}]", s.bytes().map(|b| format!("{b}u8")).collect::<Vec<_>>().join(", "));
    let chars = |s: &str| if aslit { format!("{s:?}@") } else { format!("seq![{}]", s.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", ")) };
    if parse {
        let mut t = format!("pub open spec fn {fname}_spec(b: Seq<u8>) -> Option<{name}> {{\n    ");
        for (x, n, ci) in &v {
            let (b, n) = if *ci { ("vx_lower(b)", n.to_ascii_lowercase()) } else { ("b", n.clone()) };
            t.push_str(&format!("if {b} == {} {{ Some({name}::{x}) }} else ", bytes(&n)));
        }
        t.push_str(&format!("{{ None }}\n}}\n#[verifier::external_body]\npub fn {fname}(s: &str) -> (r: Option<{name}>) ensures r == {fname}_spec(sbytes(s@))\n{{ unimplemented!() }}\n"));
        Ok(t)
    } else {
        let mut t = format!("pub open spec fn {fname}_spec(v: {name}) -> Seq<char> {{\n    match v {{ ");
        for (x, n, _) in &v { t.push_str(&format!("{name}::{x} => {}, ", chars(n))); }
        t.push_str(&format!("}}\n}}\n#[verifier::external_body]\npub fn {fname}(v: {name}) -> (r: &'static str) ensures r@ == {fname}_spec(v)\n{{ unimplemented!() }}\n"));
        Ok(t)
    }
}

struct Out {
    text: String,
    fns: Vec<serde_json::Value>,
    notes: BTreeSet<String>,
    lits: BTreeSet<String>,
}

fn line_of(s: &str) -> usize { s.matches('\n').count() + 1 }

fn emit_fn(d: &FnDirs, file: &str, f: Found, global_subst: &[(String, String, bool)], macros: BTreeMap<String, (TokenStream, TokenStream)>, out: &mut Out) -> Res<()> {
    let Found { sig, block, line } = f;
    let mut notes = BTreeSet::new();
    // token substitutions
    let mut ts = quote!(#sig #block);
    for (from, to, optional) in d.subst.iter().chain(global_subst) {
        let fl = flat_tokens(from)?;
        let tt: TokenStream = to.parse().map_err(|e| format!("bad substitution {to}: {e}"))?;
        let mut n = 0;
        ts = subst_tokens(ts, &fl, &tt, &mut n);
        if n == 0 && !optional {
            return Err(format!("lost anchor: `{from}` not found in {}", d.path));
        }
        if n > 0 { notes.insert(format!("substituted `{from}` by `{to}` ({n}x)")); }
    }
    let item: ItemFn = syn::parse2(ts).map_err(|e| format!("cannot reparse {}: {e}", d.path))?;
    let mut sig = item.sig;
    let mut block = *item.block;
    let mut ds = desugar::Desugar::new(d);
    ds.macros = macros;
    ds.run(&mut sig, &mut block)?;
    out.lits.extend(ds.lits.iter().cloned());
    notes.extend(ds.notes.iter().cloned());
    // anchors that must exist
    for k in d.loops.keys().chain(d.loopstart.keys()).chain(d.loopend.keys()).chain(d.beforeloop.keys()).chain(d.afterloop.keys()).chain(d.forvar.keys()) {
        if *k >= ds.nloops {
            return Err(format!("lost anchor: {} has {} loops, contract names loop {k}", d.path, ds.nloops));
        }
    }
    if let Some(k) = d.aftermatch.keys().find(|k| **k >= ds.nmatches) {
        return Err(format!("lost anchor: {} has {} match statements, contract names {k}", d.path, ds.nmatches));
    }
    if let Some(k) = d.afterif.keys().find(|k| **k >= ds.nifs) {
        return Err(format!("lost anchor: {} has {} if statements, contract names {k}", d.path, ds.nifs));
    }
    if ds.nloops > 0 && !d.opts.contains("partial-loops") {
        for k in 0..ds.nloops {
            if !d.loops.contains_key(&k) {
                return Err(format!("lost anchor: loop {k} of {} has no invariant", d.path));
            }
        }
    }
    for (n, k, _) in &d.afterlet {
        if !ds.seen_lets.contains(&(n.clone(), *k)) {
            return Err(format!("lost anchor: no `let {n}` (#{k}) in {}", d.path));
        }
    }
    for (n, k, _) in d.aftercall.iter().chain(&d.beforecall) {
        if !ds.seen_calls.contains(&(n.clone(), *k)) {
            return Err(format!("lost anchor: no call statement `{n}` (#{k}) in {}", d.path));
        }
    }
    if let Some(n) = &d.rename { sig.ident = Ident::new(n, Span::call_site()); }
    let outlined = match &d.outline {
        Some((params, spec)) => { notes.insert("the arms of its `match` are verified as functions of their own".into()); outline_arms(d, &sig, &mut block, params, spec, &mut ds)? }
        None => Vec::new(),
    };
    let mut head = String::new();
    for a in &d.attrs { head.push_str(a); head.push('\n'); }
    if let Some(v) = &d.vis { head.push_str(v); head.push(' '); }
    if let Some(s) = &d.sig {
        head.push_str(s);
        notes.insert("signature replaced by the unit file".into());
    } else {
        let constness = if d.opts.contains("noconst") { None } else { sig.constness.as_ref() };
        let ident = &sig.ident;
        let generics = &sig.generics;
        let inputs = &sig.inputs;
        head.push_str(&print::tokens(&quote!(#constness fn #ident #generics (#inputs))));
        if let ReturnType::Type(_, t) = &sig.output {
            let t = print::tokens(&t.to_token_stream());
            match &d.ret {
                Some(r) => head.push_str(&format!(" -> ({r}: {t})")),
                None => head.push_str(&format!(" -> {t}")),
            }
        }
        if let Some(w) = &sig.generics.where_clause { head.push_str(&print::tokens(&w.to_token_stream())); }
    }
    head.push('\n');
    head.push_str(&d.spec);
    let body = print::tokens(&block.to_token_stream());
    let body = print::fill_marks(&body, &ds.marks);
    let body = if d.opts.contains("vxskip") { "{ unimplemented!() }".to_string() } else { body };
    let start = line_of(&out.text);
    out.text.push_str(&head);
    out.text.push_str(&body);
    out.text.push('\n');
    let end = line_of(&out.text);
    out.fns.push(serde_json::json!({
        "name": d.rename.clone().unwrap_or_else(|| d.path.clone()), "path": d.path, "file": file, "line": line,
        "out_start": start, "out_end": end, "canary": !d.opts.contains("nocanary"), "notes": notes.iter().collect::<Vec<_>>(),
    }));
    for (name, text, dead) in outlined {
        let start = line_of(&out.text);
        out.text.push_str(&print::fill_marks(&text, &ds.marks));
        out.text.push('\n');
        let end = line_of(&out.text);
        out.fns.push(serde_json::json!({
            "name": name, "path": d.path, "file": file, "line": line,
            "out_start": start, "out_end": end, "canary": !dead && !d.opts.contains("nocanary"), "notes": ["one arm of a `match`"],
        }));
    }
    out.notes.extend(notes);
    Ok(())
}

/// `break 'label x` leaves the function: as `Ok(x)`, or as `Ok(VxLet::Break(x))`
struct LeaveBlock(Option<String>, bool);
impl VisitMut for LeaveBlock {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(b) = e {
            if let (Some(l), Some(x)) = (&b.label, &b.expr) {
                if self.0.as_ref().is_none_or(|n| l.ident == n.as_str()) {
                    *e = if self.1 { syn::parse_quote!(return Ok(VxLet::Break(#x))) } else { syn::parse_quote!(return Ok(#x)) };
                }
            }
        }
    }
}
/// `class` is a variable of the function around an arm
struct ClassParam;
impl VisitMut for ClassParam {
    fn visit_expr_assign_mut(&mut self, a: &mut syn::ExprAssign) {
        visit_mut::visit_expr_assign_mut(self, a);
        if let Expr::Path(p) = &*a.left { if p.path.is_ident("class") { a.left = Box::new(syn::parse_quote!(*class)); } }
    }
}

/// A pattern for specifications: the same cases, no bindings.
fn bare_pattern(p: &syn::Pat) -> TokenStream {
    use syn::Pat;
    match p {
        Pat::Ident(i) => match &i.subpat {
            Some((_, s)) => bare_pattern(s),
            None if i.ident.to_string().starts_with(|c: char| c.is_uppercase()) => quote!(#i),
            None => quote!(_),
        },
        Pat::Or(o) => { let c: Vec<_> = o.cases.iter().map(bare_pattern).collect(); quote!(#(#c)|*) }
        Pat::Paren(q) => bare_pattern(&q.pat),
        Pat::Struct(t) => {
            let path = &t.path;
            let f: Vec<_> = t.fields.iter().map(|f| { let m = &f.member; let q = bare_pattern(&f.pat); quote!(#m : #q) }).collect();
            quote!(#path { #(#f ,)* .. })
        }
        Pat::TupleStruct(t) => { let path = &t.path; let f: Vec<_> = t.elems.iter().map(bare_pattern).collect(); quote!(#path ( #(#f),* )) }
        Pat::Tuple(t) => { let f: Vec<_> = t.elems.iter().map(bare_pattern).collect(); quote!(( #(#f),* )) }
        Pat::Rest(_) => quote!(..),
        p => quote!(#p),
    }
}

/// Turn each arm of the first `match` statement into a function of its own, called in its place.
fn outline_arms(d: &FnDirs, sig: &syn::Signature, block: &mut syn::Block, params: &str, spec: &str, ds: &mut desugar::Desugar) -> Res<Vec<(String, String, bool)>> {
    use syn::{Expr, FnArg, Stmt};
    let lost = || format!("lost anchor: no `match` statement to split in {}", d.path);
    let decl: syn::Signature = syn::parse_str(&format!("fn f({params})")).map_err(|e| format!("bad outline parameters {params}: {e}"))?;
    let args: Vec<TokenStream> = decl.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) => {
        // `vx_x` is a second name for the argument `x`
        let n = t.pat.to_token_stream().to_string();
        let id = Ident::new(n.strip_prefix("vx_").unwrap_or(&n), Span::call_site());
        Some(quote!(#id))
    } _ => None }).collect();
    let method = sig.receiver().is_some();
    let ReturnType::Type(_, ret) = &sig.output else { return Err(lost()) };
    let m = block.stmts.iter_mut().find_map(|s| match s { Stmt::Expr(Expr::Match(m), _) => Some(m), _ => None }).ok_or_else(lost)?;
    let scrut = m.expr.clone();
    let mut out = Vec::new();
    for (k, a) in m.arms.iter_mut().enumerate() {
        struct Rets(bool);
        impl<'ast> syn::visit::Visit<'ast> for Rets { fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; } }
        let mut rets = Rets(false);
        syn::visit::Visit::visit_expr(&mut rets, &a.body);
        if rets.0 { return Err(format!("unsupported construct: `return` in an arm to split in {}", d.path)); }
        if a.guard.is_some() { return Err(format!("unsupported construct: guarded arm to split in {}", d.path)); }
        let name = format!("{}_arm_{k}", sig.ident);
        let id = Ident::new(&name, Span::call_site());
        let (pat, body) = (a.pat.clone(), a.body.clone());
        let bare = bare_pattern(&pat);
        let recv = sig.receiver().map(|r| quote!(#r ,));
        let mut head = String::new();
        for t in &d.outlineattrs { head.push_str(t); head.push('\n'); }
        head.push_str(&print::tokens(&quote!(fn #id)));
        head.push_str(&format!("({} {params}) -> ({}: {})\n", recv.map(|r| print::tokens(&r)).unwrap_or_default(), d.ret.as_deref().unwrap_or("r"), print::tokens(&ret.to_token_stream())));
        let case = print::tokens(&quote!(#bare));
        head.push_str(&spec.replace("VX_CASE", &format!("(match {} {{ {case} => true, _ => false }})", print::tokens(&scrut.to_token_stream()))));
        let mut text = head;
        if d.opts.contains("vxskip") { text.push_str("{ unimplemented!() }\n"); }
        else {
        text.push_str("{\n");
        if !d.opts.contains("noreveal") { text.push_str(&desugar::reveals(&syn::Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((*body).clone(), None)] })); }
        text.push_str(&d.outlinestart);
        text.push_str(&print::tokens(&quote!(match #scrut { #pat => { #body ; } _ => { vx_unreachable(); } })));
        if d.canary && !d.opts.contains("nocanary") { text.push_str("\nassert(false);\n"); }
        text.push_str("\n");
        text.push_str("Ok(())\n}\n");
        }
        // an arm that only panics is allowed to be unreachable
        struct Dead(usize, usize);
        impl<'ast> syn::visit::Visit<'ast> for Dead {
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) { if c.func.to_token_stream().to_string() == "vx_unreachable" { self.0 += 1; } else { self.1 += 1; } syn::visit::visit_expr_call(self, c); }
            fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) { self.1 += 1; syn::visit::visit_expr_method_call(self, c); }
        }
        let mut dead = Dead(0, 0);
        syn::visit::Visit::visit_expr(&mut dead, &body);
        out.push((name, text, dead.0 > 0 && dead.1 == 0));
        let call: Expr = if method { syn::parse_quote!(self.#id(#(#args),*)) } else { syn::parse_quote!(#id(#(#args),*)) };
        struct Unbind;
        impl VisitMut for Unbind {
            fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
                let q = bare_pattern(p);
                if let Ok(n) = syn::parse::Parser::parse2(syn::Pat::parse_multi, q) { *p = n; }
            }
        }
        Unbind.visit_pat_mut(&mut a.pat);
        a.body = Box::new(syn::parse_quote!({ #call ? ; }));
    }
    let _ = ds;
    Ok(out)
}

fn run(repo: &str, unit: &str, outp: &str, jsonp: &str, canary: Option<(usize, usize)>) -> Res<()> {
    let mut nth = 0usize;
    let text = std::fs::read_to_string(unit).map_err(|e| e.to_string())?;
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    // includes
    let mut lines: Vec<String> = Vec::new();
    for l in text.lines() {
        if let Some(f) = l.strip_prefix("//@include ") {
            let t = std::fs::read_to_string(dir.join(f.trim())).map_err(|e| format!("{f}: {e}"))?;
            lines.extend(t.lines().map(String::from));
        } else { lines.push(l.to_string()); }
    }
    let mut cache = BTreeMap::new();
    let mut file = String::new();
    let mut writer = "vx_".to_string();
    let mut out = Out { text: String::new(), fns: vec![], notes: BTreeSet::new(), lits: BTreeSet::new() };
    let mut gsub: Vec<(String, String, bool)> = vec![];
    let mut i = 0;
    let mut items = vec![];
    while i < lines.len() {
        let l = &lines[i];
        let Some(dir) = l.trim_start().strip_prefix("//@") else {
            // the lemmas are proved in the unit itself; its guarded copies take them on trust
            let t = l.trim_start();
            if canary.is_some() && i.checked_sub(1).is_none_or(|p| lines[p].trim() != "#[via_fn]") && ["proof fn ", "pub proof fn ", "broadcast proof fn ", "pub broadcast proof fn "].iter().any(|p| t.starts_with(p)) {
                out.text.push_str("#[verifier::external_body] ");
            }
            out.text.push_str(l);
            out.text.push('\n');
            i += 1;
            continue;
        };
        let (cmd, arg) = dir.split_once(' ').unwrap_or((dir, ""));
        let arg = arg.trim();
        match cmd {
            "file" => { file = arg.to_string(); i += 1; }
            "writer" => { writer = arg.to_string(); i += 1; }
            "subst?" | "subst" => {
                let (a, b) = arg.split_once("==>").ok_or("bad subst")?;
                gsub.push((a.trim().into(), b.trim().into(), true));
                i += 1;
            }
            "constlits" => { desugar::CONSTS.with_borrow_mut(|m| *m = Some(BTreeMap::new())); i += 1; }
            "extract" => {
                // extract KIND NAME [attrs...]
                let mut p = arg.splitn(3, ' ');
                let (k, n, attrs) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                let f = read_source(repo, &file, &mut cache)?;
                let mut it = find_item(&f, k, n)?;
                make_pub(&mut it);
                if let Item::Static(st) = &it && matches!(st.mutability, syn::StaticMutability::None) {
                    let (id, ty, e) = (st.ident.clone(), st.ty.clone(), st.expr.clone());
                    it = parse_quote!(pub const #id: #ty = #e;);
                    out.notes.insert(format!("static {id} is extracted as a constant"));
                }
                if let Item::Const(c) = &it && let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = &*c.expr {
                    out.lits.insert(l.value());
                    desugar::CONSTS.with_borrow_mut(|m| if let Some(m) = m { m.insert(c.ident.to_string(), l.token().to_string()); });
                }
                let mut ts = it.to_token_stream();
                for (from, to, _) in &gsub {
                    let fl = flat_tokens(from)?;
                    let tt: TokenStream = to.parse().map_err(|e| format!("bad substitution {to}: {e}"))?;
                    let mut c = 0;
                    ts = subst_tokens(ts, &fl, &tt, &mut c);
                }
                out.text.push_str(attrs);
                out.text.push('\n');
                out.text.push_str(&print::tokens(&ts));
                out.text.push('\n');
                items.push(format!("{file}: {k} {n}"));
                i += 1;
            }
            "phf" => {
                // phf STATIC FN: the entries of a phf map as a specification, its `get` as a trusted function
                let (n, fname) = arg.split_once(' ').ok_or("bad phf")?;
                let f = read_source(repo, &file, &mut cache)?;
                out.text.push_str(&phf_text(&f, n, fname)?);
                out.notes.insert(format!("`{n}.get` (phf) is `{fname}`: assumed to find exactly the entries written in the map"));
                items.push(format!("{file}: static {n}"));
                i += 1;
            }
            "bitflags" => {
                let (n, attrs) = arg.split_once(' ').unwrap_or((arg, ""));
                let f = read_source(repo, &file, &mut cache)?;
                out.text.push_str(&bitflags_text(&f, n, attrs)?);
                out.notes.insert(format!("`{n}` (bitflags) is a struct around its bits with the operations the crate documents"));
                items.push(format!("{file}: bitflags {n}"));
                i += 1;
            }
            "readlits" => {
                let t = reader::lemmas(&out.lits);
                out.text.push_str(&if canary.is_some() { t.replace("pub broadcast proof fn", "#[verifier::external_body] pub broadcast proof fn") } else { t });
                i += 1;
            }
            "strum-parse" | "strum-str" => {
                let (n, fname) = arg.split_once(' ').ok_or("bad strum")?;
                let (fname, aslit) = match fname.split_once(' ') { Some((a, _)) => (a, true), None => (fname, false) };
                let f = read_source(repo, &file, &mut cache)?;
                if aslit { for (_, n, _) in strum_names(&f, n)? { out.lits.insert(n); } }
                out.text.push_str(&strum_text(&f, n, fname, cmd == "strum-parse", aslit)?);
                out.notes.insert(format!("`{fname}`: assumed to be what strum derives for `{n}` from its variants and attributes"));
                items.push(format!("{file}: strum names of {n}"));
                i += 1;
            }
            "match-arm-fn" | "fn" => {
                let mut d = FnDirs::default();
                d.writer = writer.clone();
                let mut w = arg.split(" as ");
                d.path = w.next().unwrap().trim().to_string();
                d.rename = w.next().map(|s| s.trim().to_string());
                i += 1;
                let mut section: Option<(String, String)> = None;
                let mut buf = String::new();
                let flush = |d: &mut FnDirs, s: Option<(String, String)>, buf: &mut String| -> Res<()> {
                    let t = std::mem::take(buf);
                    let Some((c, a)) = s else {
                        if !t.trim().is_empty() { return Err(format!("text outside a section in {}: {t}", d.path)); }
                        return Ok(());
                    };
                    let num = || a.parse::<usize>().map_err(|_| format!("bad index {a}"));
                    let named = || -> (String, usize) {
                        let mut q = a.rsplitn(2, " #");
                        let l = q.next().unwrap_or("");
                        match q.next() { Some(n) => (n.trim().to_string(), l.parse().unwrap_or(0)), None => (l.trim().to_string(), 0) }
                    };
                    match c.as_str() {
                        "spec" => d.spec.push_str(&t),
                        "loop" => { d.loops.insert(num()?, t); }
                        "loopstart" => { d.loopstart.insert(num()?, t); }
                        "loopend" => { d.loopend.insert(num()?, t); }
                        "beforeloop" => { d.beforeloop.insert(num()?, t); }
                        "afterloop" => { d.afterloop.insert(num()?, t); }
                        "afterif" => { d.afterif.insert(num()?, t); }
                        "aftermatch" => { d.aftermatch.insert(num()?, t); }
                        "start" => d.start.push_str(&t),
                        "outline" => d.outline = Some((a.clone(), t)),
                        "outlinestart" => d.outlinestart.push_str(&t),
                        "end" => d.end.push_str(&t),
                        "afterlet" => { let (n, k) = named(); d.afterlet.push((n, k, t)); }
                        "aftercall" => { let (n, k) = named(); d.aftercall.push((n, k, t)); }
                        "beforecall" => { let (n, k) = named(); d.beforecall.push((n, k, t)); }
                        c => return Err(format!("unknown section {c}")),
                    }
                    Ok(())
                };
                loop {
                    let Some(l) = lines.get(i) else { return Err(format!("missing //@endfn for {}", d.path)) };
                    i += 1;
                    if let Some(dir) = l.trim_start().strip_prefix("//@") {
                        let (c, a) = dir.split_once(' ').unwrap_or((dir, ""));
                        let a = a.trim();
                        flush(&mut d, section.take(), &mut buf)?;
                        match c {
                            "endfn" => break,
                            "ret" => d.ret = Some(a.into()),
                            "attr" => d.attrs.push(a.into()),
                            "outlineattr" => d.outlineattrs.push(a.into()),
                            "vis" => d.vis = Some(a.into()),
                            "sig" => d.sig = Some(a.into()),
                            "opt" => { d.opts.insert(a.into()); }
                            "arm" => d.arms.push(a.into()),
                            "forvar" => {
                                let (n, v) = a.split_once(' ').ok_or("bad forvar")?;
                                d.forvar.insert(n.parse().map_err(|_| "bad forvar")?, v.into());
                            }
                            "subst" | "subst?" => {
                                let (x, y) = a.split_once("==>").ok_or("bad subst")?;
                                d.subst.push((x.trim().into(), y.trim().into(), c == "subst?"));
                            }
                            _ => section = Some((c.into(), a.into())),
                        }
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                let f = read_source(repo, &file, &mut cache)?;
                let mut found = find_fn(&f, &d.path)?;
                if !d.arms.is_empty() { found = desugar::select_arms(found, &d.arms)?; }
                let file2 = file.clone();
                let macros = file_macros(&f);
                // the vacuity guard may be split: a part guards every k-th function and takes the others on trust
                if let Some((part, of)) = canary {
                    if nth % of == part { d.canary = true; } else {
                        d.opts.insert("nocanary".into());
                        d.opts.insert("vxskip".into());
                        d.attrs.push("#[verifier::external_body]".into());
                        d.outlineattrs.push("#[verifier::external_body]".into());
                    }
                    nth += 1;
                }
                emit_fn(&d, &file2, found, &gsub, macros, &mut out)?;
            }
            c => return Err(format!("unknown directive {c}")),
        }
    }
    std::fs::write(outp, &out.text).map_err(|e| e.to_string())?;
    let j = serde_json::json!({ "fns": out.fns, "items": items, "notes": out.notes.iter().collect::<Vec<_>>() });
    std::fs::write(jsonp, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx REPO UNIT OUT.rs OUT.json");
        std::process::exit(2);
    }
    let canary = a.get(5).map(|s| {
        let mut w = s.strip_prefix("canary").unwrap_or("").trim_start_matches(':').split('/').map(|n| n.parse::<usize>().unwrap_or(0));
        let part = w.next().unwrap_or(0);
        (part, w.next().unwrap_or(1).max(1))
    });
    if let Err(e) = run(&a[1], &a[2], &a[3], &a[4], canary) {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}

#[allow(dead_code)]
fn unused() { let _ = (format_ident!("x"), Spacing::Alone); let _ = visit_mut::visit_expr_mut::<desugar::Desugar>; }
