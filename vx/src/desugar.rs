//! Syntax-directed rewrites of Rust constructs that Verus does not accept, and insertion of
//! contract texts (loop invariants, proof blocks) at named places.
use crate::{FnDirs, Found, Res, fmtlit};
use proc_macro2::{Span, TokenStream};
use quote::{ToTokens, quote};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar<'a> {
    d: &'a FnDirs,
    pub notes: BTreeSet<String>,
    pub nloops: usize,
    pub nifs: usize,
    pub nmatches: usize,
    pub seen_lets: BTreeSet<(String, usize)>,
    pub seen_calls: BTreeSet<(String, usize)>,
    pub marks: BTreeMap<String, String>,
    pub macros: BTreeMap<String, (TokenStream, TokenStream)>,
    pub lits: BTreeSet<String>,
    let_count: BTreeMap<String, usize>,
    call_count: BTreeMap<String, usize>,
    fresh: usize,
    err: Option<String>,
}

pub fn select_arms(_f: Found, _arms: &[String]) -> Res<Found> {
    Err("unsupported construct: arm selection".into())
}

/// `break v` of a loop into `{ x = v; break }`
struct LoopValue { x: Ident, n: usize }
impl VisitMut for LoopValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            Expr::Break(ExprBreak { label: None, expr: Some(v), .. }) => {
                self.n += 1;
                let x = &self.x;
                *e = parse_quote!({ #x = #v; break; });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

thread_local! {
    /// the extracted string constants whose text is revealed where they are used (`//@constlits`)
    pub static CONSTS: std::cell::RefCell<Option<BTreeMap<String, String>>> = const { std::cell::RefCell::new(None) };
}
/// All string literals of an expression tree (outside macros).
struct Lits(BTreeSet<String>);
impl<'ast> Visit<'ast> for Lits {
    fn visit_lit_str(&mut self, l: &'ast LitStr) { self.0.insert(l.token().to_string()); }
    fn visit_path(&mut self, p: &'ast Path) {
        if let Some(i) = p.get_ident() {
            CONSTS.with_borrow(|c| if let Some(t) = c.as_ref().and_then(|c| c.get(&i.to_string())) { self.0.insert(t.clone()); });
        }
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        if let Expr::Verbatim(ts) = e { verb_lits(ts.clone(), &mut self.0); }
        syn::visit::visit_expr(self, e);
    }
}
fn verb_lits(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Group(g) => verb_lits(g.stream(), out),
            proc_macro2::TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('"') || s.starts_with("r\"") { out.insert(s); }
            }
            _ => {}
        }
    }
}
pub fn reveals(b: &Block) -> String {
    let mut l = Lits(BTreeSet::new());
    l.visit_block(b);
    if l.0.is_empty() { return String::new(); }
    let mut s = String::from("proof {");
    for x in l.0 { s.push_str(&format!(" reveal_strlit({x});")); }
    s.push_str(" }\n");
    s
}

/// Conjuncts of a condition that contains `let`.
fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e
        && matches!(b.op, BinOp::And(_))
        && has_let(e)
    {
        conjuncts(&b.left, out);
        conjuncts(&b.right, out);
        return;
    }
    out.push(e.clone());
}
fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}

struct RefPats<'a> { fresh: &'a mut usize, out: Vec<(Pat, Ident)>, bad: bool }
impl VisitMut for RefPats<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            let id = Ident::new(&format!("vx_r{}", self.fresh), Span::call_site());
            *self.fresh += 1;
            if !matches!(&*r.pat, Pat::Ident(_) | Pat::Tuple(_) | Pat::Wild(_) | Pat::Struct(_)) { self.bad = true; }
            self.out.push(((*r.pat).clone(), id.clone()));
            *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: id, subpat: None });
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

struct HasBreak<'a> { label: Option<&'a str>, found: bool, in_loop: bool, depth: usize }
impl<'ast> Visit<'ast> for HasBreak<'_> {
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        match (&b.label, self.label) {
            (Some(l), Some(w)) if l.ident == w => { self.found = true; if self.depth > 0 { self.in_loop = true; } }
            (None, None) if self.depth == 0 => { self.found = true; }
            _ => {}
        }
        syn::visit::visit_expr_break(self, b);
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) { self.depth += 1; syn::visit::visit_expr_loop(self, e); self.depth -= 1; }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) { self.depth += 1; syn::visit::visit_expr_while(self, e); self.depth -= 1; }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) { self.depth += 1; syn::visit::visit_expr_for_loop(self, e); self.depth -= 1; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_break(e: &Expr, label: &str) -> bool {
    let mut h = HasBreak { label: Some(label), found: false, in_loop: false, depth: 0 };
    h.visit_expr(e);
    h.found
}
fn stmt_has_break(s: &Stmt, label: &str) -> bool {
    let mut h = HasBreak { label: Some(label), found: false, in_loop: false, depth: 0 };
    h.visit_stmt(s);
    h.found
}

fn diverges(e: &Expr) -> bool {
    matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_))
}

fn terminate_last(stmts: &mut [Stmt]) {
    if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() { *semi = Some(Default::default()); }
}
/// `x` of `x.iter().rev()`, when `x` is a path or a field
fn for_rev(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(r) = e else { return None };
    if r.method != "rev" || !r.args.is_empty() { return None; }
    let Expr::MethodCall(i) = &*r.receiver else { return None };
    if i.method != "iter" || !i.args.is_empty() { return None; }
    matches!(&*i.receiver, Expr::Path(_) | Expr::Field(_)).then(|| (*i.receiver).clone())
}
struct HasContinue(bool);
impl<'ast> Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.0 = true; }
}
fn has_continue(b: &Block) -> bool { let mut h = HasContinue(false); h.visit_block(b); h.0 }
/// leaving a closure early: `return` other than `return Err(..)`, and `?`
struct Leaves { any: bool, other: bool }
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.any = true;
        let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")));
        if !err { self.other = true; }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) { self.any = true; self.other = true; syn::visit::visit_expr_try(self, t); }
}
fn leaves(e: &Expr) -> (bool, bool) { let mut l = Leaves { any: false, other: false }; l.visit_expr(e); (l.any, l.other) }

impl<'a> Desugar<'a> {
    /// Calls that take a closure, written with `match` and `while`.
    fn lower_closure(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Try(t) = e
            && let Expr::MethodCall(c) = &*t.expr
            && c.method == "collect"
            && let Some(g) = &c.turbofish
            && let Some(GenericArgument::Type(ty)) = g.args.first()
            && let Type::Path(tp) = ty
            && tp.path.segments.last()?.ident == "Result"
            && let Expr::MethodCall(m) = &*c.receiver
            && m.method == "map"
            && let Some(Expr::Closure(cl)) = m.args.first()
            && cl.inputs.len() == 1
        {
            let (_, other) = leaves(&cl.body);
            if other { return None; }
            self.note("`.map(|p| b).collect::<Result<Vec<_>, _>>()?` written as a loop that pushes or returns the error");
            let (p, b, r) = (cl.inputs.first().unwrap(), &cl.body, &m.receiver);
            let mut f: Expr = parse_quote!({ let mut vx_vec = Vec::new(); for vx_p in vx_over { let vx_b: () = 0; match vx_m { Ok(vx_x) => vx_vec.push(vx_x), Err(vx_e) => return Err(vx_e) } } vx_vec });
            if let Expr::Block(bl) = &mut f
                && let Stmt::Expr(Expr::ForLoop(fl), _) = &mut bl.block.stmts[1]
            {
                *fl.pat = p.clone();
                let mut over = (**r).clone();
                if let Expr::MethodCall(i) = &over && i.method == "into_iter" { over = (*i.receiver).clone(); }
                fl.expr = Box::new(over);
                fl.body.stmts.remove(0);
                if let Stmt::Expr(Expr::Match(mm), _) = &mut fl.body.stmts[0] { mm.expr = b.clone(); }
            }
            return Some(f);
        }
        let Expr::MethodCall(m) = e else { return None };
        if m.method == "collect"
            && m.args.is_empty()
            && m.turbofish.as_ref().is_none_or(|g| matches!(g.args.first(), Some(GenericArgument::Type(Type::Path(t))) if t.path.segments.last().is_some_and(|s| s.ident == "Vec")))
            && let Expr::MethodCall(mm) = &*m.receiver
            && mm.method == "map"
            && let Some(Expr::Closure(cl)) = mm.args.first()
            && cl.inputs.len() == 1
            && !leaves(&cl.body).0
        {
            self.note("`.map(|p| b).collect()` into a vector written as a loop that pushes");
            let (p, b, r) = (cl.inputs.first().unwrap(), &cl.body, &mm.receiver);
            let mut over = (**r).clone();
            if let Expr::MethodCall(i) = &over && i.method == "into_iter" { over = (*i.receiver).clone(); }
            let mut f: Expr = parse_quote!({ let mut vx_vec = Vec::new(); for vx_p in vx_over { let vx_x = 0; vx_vec.push(vx_x); } vx_vec });
            if let Expr::Block(bl) = &mut f
                && let Stmt::Expr(Expr::ForLoop(fl), _) = &mut bl.block.stmts[1]
            {
                *fl.pat = p.clone();
                fl.expr = Box::new(over);
                if let Stmt::Local(l) = &mut fl.body.stmts[0] { l.init.as_mut().unwrap().expr = b.clone(); }
            }
            return Some(f);
        }
        if m.method == "then_some" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_) | Expr::Lit(_)) {
            self.note("`c.then_some(x)` written as an `if`");
            let (r, x) = (&m.receiver, &m.args[0]);
            return Some(parse_quote!(if #r { Some(#x) } else { None }));
        }
        let Some(Expr::Closure(cl)) = m.args.first() else { return None };
        if m.args.len() != 1 || leaves(&cl.body).0 { return None; }
        let (r, b) = (&m.receiver, &cl.body);
        let name = m.method.to_string();
        match (name.as_str(), cl.inputs.len()) {
            ("or_else", 0) => { self.note("`x.or_else(|| y)` written as a `match`"); Some(parse_quote!(match #r { Some(vx_some) => Some(vx_some), None => #b })) }
            ("unwrap_or_else", 0) => { self.note("`x.unwrap_or_else(|| y)` written as a `match`"); Some(parse_quote!(match #r { Some(vx_some) => vx_some, None => #b })) }
            ("ok_or_else", 0) => { self.note("`x.ok_or_else(|| y)` written as a `match`"); Some(parse_quote!(match #r { Some(vx_some) => Ok(vx_some), None => Err(#b) })) }
            ("map", 1) if self.d.opts.contains("resultmap") => { self.note("`x.map(|p| y)` on a Result written as a `match`"); let p = cl.inputs.first().unwrap(); Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })) }
            ("and_then", 1) => { self.note("`x.and_then(|p| y)` written as a `match`"); let p = cl.inputs.first().unwrap(); Some(parse_quote!(match #r { Some(#p) => #b, None => None })) }
            ("position", 1) => {
                self.note("`x.position(|p| b)` written as a loop");
                let p = cl.inputs.first().unwrap();
                Some(parse_quote!({ let mut vx_it = #r; let mut vx_found: Option<usize> = None; let mut vx_idx: usize = 0; while let Some(#p) = vx_it.next() { if #b { vx_found = Some(vx_idx); break; } vx_idx += 1; } vx_found }))
            }
            ("find_map", 1) => {
                let p = cl.inputs.first().unwrap();
                self.note("`x.find_map(|p| b)` written as a loop");
                if let Expr::MethodCall(en) = &**r && en.method == "enumerate" && let Pat::Tuple(t) = p && t.elems.len() == 2 {
                    let (i, q) = (&t.elems[0], &t.elems[1]);
                    let r = &en.receiver;
                    return Some(parse_quote!({ let mut vx_it = #r; let mut vx_found = None; let mut vx_idx: usize = 0; while let Some(#q) = vx_it.next() { let #i = vx_idx; if let Some(vx_some) = #b { vx_found = Some(vx_some); break; } vx_idx += 1; } vx_found }));
                }
                Some(parse_quote!({ let mut vx_it = #r; let mut vx_found = None; while let Some(#p) = vx_it.next() { if let Some(vx_some) = #b { vx_found = Some(vx_some); break; } } vx_found }))
            }
            _ => None,
        }
    }

    pub fn new(d: &'a FnDirs) -> Self {
        Desugar {
            d, notes: BTreeSet::new(), nloops: 0, nifs: 0, nmatches: 0, seen_lets: BTreeSet::new(), seen_calls: BTreeSet::new(),
            marks: BTreeMap::new(), macros: BTreeMap::new(), lits: BTreeSet::new(), let_count: BTreeMap::new(), call_count: BTreeMap::new(), fresh: 0, err: None,
        }
    }

    fn mark(&mut self, text: String) -> TokenStream {
        let k = format!("__VX{}__", self.marks.len());
        self.marks.insert(k.clone(), text);
        let id = Ident::new(&k, Span::call_site());
        quote!(#id)
    }
    fn mark_stmt(&mut self, text: String) -> Stmt { Stmt::Expr(Expr::Verbatim(self.mark(text)), None) }
    fn fail(&mut self, s: impl Into<String>) { if self.err.is_none() { self.err = Some(format!("unsupported construct: {}", s.into())); } }
    fn note(&mut self, s: &str) { self.notes.insert(s.to_string()); }

    pub fn run(&mut self, sig: &mut Signature, block: &mut Block) -> Res<()> {
        // `mut` parameters: rebind (Verus accepts `mut x: T`, keep); patterns in parameters: none used.
        let _ = &sig;
        let returning_arm = self.d.path.starts_with("arm:") && match block.stmts.last() {
            Some(Stmt::Expr(Expr::Match(m), _)) => match m.arms.first().map(|a| &*a.body) {
                Some(Expr::Block(b)) => matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
                _ => false,
            },
            _ => false,
        };
        let tail_loop = returning_arm || matches!(block.stmts.last(), Some(Stmt::Expr(Expr::Loop(_), _)) );
        if self.d.canary && !self.d.opts.contains("nocanary") && tail_loop {
            // the end of such a function may be unreachable: guard its `return`s instead
            let m = self.mark_stmt("assert(false);".into());
            struct Rets(Stmt, usize);
            impl VisitMut for Rets {
                fn visit_expr_mut(&mut self, e: &mut Expr) {
                    visit_mut::visit_expr_mut(self, e);
                    if matches!(e, Expr::Return(_)) {
                        self.1 += 1;
                        let mut b: Expr = parse_quote!({ });
                        let r = e.clone();
                        if let Expr::Block(b) = &mut b { b.block.stmts.push(self.0.clone()); b.block.stmts.push(Stmt::Expr(r, Some(Default::default()))); }
                        *e = b;
                    }
                }
                fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            }
            let mut v = Rets(m, 0);
            v.visit_block_mut(block);
        }
        self.visit_block_mut(block);
        if let Some(e) = self.err.take() { return Err(format!("{e} in {}", self.d.path)); }
        let mut head = String::new();
        if !self.d.opts.contains("noreveal") { head.push_str(&reveals(block)); }
        head.push_str(&self.d.start);
        if !head.trim().is_empty() { let m = self.mark_stmt(head); block.stmts.insert(0, m); }
        let mut endtext = self.d.end.clone();
        if self.d.canary && !self.d.opts.contains("nocanary") { endtext.push_str("\nassert(false);\n"); }
        if !endtext.trim().is_empty() {
            let end = self.mark_stmt(endtext);
            match block.stmts.pop() {
                Some(Stmt::Expr(e, None)) if !matches!(e, Expr::Verbatim(_)) || matches!(sig.output, ReturnType::Type(..)) => {
                    if matches!(sig.output, ReturnType::Default) {
                        block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        block.stmts.push(end);
                    } else {
                        let mut l: Stmt = parse_quote!(let vx_ret = 0;);
                        if let Stmt::Local(l) = &mut l { l.init.as_mut().unwrap().expr = Box::new(e); }
                        block.stmts.push(l);
                        block.stmts.push(end);
                        block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    }
                }
                Some(s) => { block.stmts.push(s); block.stmts.push(end); }
                None => block.stmts.push(end),
            }
        }
        Ok(())
    }

    fn lower_refpats(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = RefPats { fresh: &mut self.fresh, out: vec![], bad: false };
        r.visit_pat_mut(p);
        let (out, bad) = (r.out, r.bad);
        if bad { self.fail("refutable reference pattern"); }
        if !out.is_empty() { self.note("`&x` pattern rewritten to a binding followed by a dereference"); }
        out.into_iter().filter(|(p, _)| !matches!(p, Pat::Wild(_))).map(|(p, id)| parse_quote!(let #p = *#id;)).collect()
    }

    /// `if c0 && let .. && .. { t } else { e }` as nested ifs.
    fn nest(&mut self, conds: &[Expr], then: Block, els: Option<&Expr>) -> Expr {
        let (c, rest) = conds.split_first().unwrap();
        let body: Block = if rest.is_empty() { then } else {
            let e = self.nest(rest, then, els);
            Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] }
        };
        let (c, body) = if let Expr::Let(l) = c {
            let mut l = l.clone();
            let mut b = body;
            let pre = self.lower_refpats(&mut l.pat);
            b.stmts.splice(0..0, pre);
            (Expr::Let(l), b)
        } else { (c.clone(), body) };
        // built, not parsed: the body may contain a loop with its invariant
        let else_branch = els.map(|e| {
            let e = match e {
                Expr::Block(_) | Expr::If(_) => e.clone(),
                e => Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] } }),
            };
            (Default::default(), Box::new(e))
        });
        Expr::If(ExprIf { attrs: vec![], if_token: Default::default(), cond: Box::new(c), then_branch: body, else_branch })
    }

    fn str_slice(&mut self, i: &ExprIndex) -> Option<Expr> {
        let x = &i.expr;
        let Expr::Range(r) = &*i.index else { return None };
        self.note("string slicing `s[a..b]` written as the call s.vx_range(a, b) with the same panics as preconditions");
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        match (&r.start, &r.end) {
            (Some(a), Some(b)) if !incl => Some(parse_quote!(#x.vx_range(#a, #b))),
            (None, Some(b)) if !incl => Some(parse_quote!(#x.vx_range_to(#b))),
            (Some(a), None) => Some(parse_quote!(#x.vx_range_from(#a))),
            (Some(a), Some(b)) => Some(parse_quote!(#x.vx_range(#a, #b + 1))),
            _ => { self.fail("string range"); None }
        }
    }

    fn loop_parts(&mut self, n: usize, body: &mut Block) -> TokenStream {
        let inv = self.d.loops.get(&n).cloned().unwrap_or_default();
        let mut st = if self.d.opts.contains("noreveal") { String::new() } else { reveals(body) };
        if let Some(t) = self.d.loopstart.get(&n) { st.push_str(t); }
        if !st.trim().is_empty() { let m = self.mark_stmt(st); body.stmts.insert(0, m); }
        if let Some(t) = self.d.loopend.get(&n).cloned() {
            // the loop body has unit type: terminate a tail expression
            if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut()
                && !matches!(e, Expr::Verbatim(_))
            { *semi = Some(Default::default()); }
            let m = self.mark_stmt(t);
            body.stmts.push(m);
        }
        self.mark(inv)
    }

    fn write_macro(&mut self, m: &Macro, newline: bool) -> Option<Vec<Stmt>> {
        let args = match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(a) => a.into_iter().collect::<Vec<_>>(),
            Err(e) => { self.fail(format!("write! arguments: {e}")); return None; }
        };
        let mut it = args.into_iter();
        let mut dst = it.next()?;
        if let Expr::Reference(r) = &dst && r.mutability.is_some() { dst = (*r.expr).clone(); }
        let fmt = match it.next() {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            None => String::new(),
            _ => { self.fail("write! without literal format"); return None; }
        };
        let mut pos: Vec<Expr> = vec![];
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        for a in it {
            if let Expr::Assign(a) = &a
                && let Expr::Path(p) = &*a.left
            {
                named.insert(p.to_token_stream().to_string(), (*a.right).clone());
            } else { pos.push(a); }
        }
        let mut fmt = fmt;
        if newline { fmt.push('\n'); }
        let pieces = match fmtlit::split(&fmt) { Ok(p) => p, Err(e) => { self.fail(e); return None; } };
        let mut out = vec![];
        for p in pieces {
            match p {
                fmtlit::Piece::Lit(l) => { self.lits.insert(l.clone()); let l = LitStr::new(&l, Span::call_site()); let m = quote::format_ident!("{}lit", self.d.writer); out.push(parse_quote!(#dst.#m(#l);)); }
                fmtlit::Piece::Arg(n) => {
                    let e: Expr = match named.get(&n) { Some(e) => e.clone(), None => { let i = Ident::new(&n, Span::call_site()); parse_quote!(#i) } };
                    let m = quote::format_ident!("{}disp", self.d.writer);
                    out.push(parse_quote!(#dst.#m(&#e);));
                }
                fmtlit::Piece::Pos(k) => match pos.get(k) {
                    Some(e) => { let m = quote::format_ident!("{}disp", self.d.writer); out.push(parse_quote!(#dst.#m(&#e);)) }
                    None => { self.fail("write! argument missing"); return None; }
                },
            }
        }
        self.note("write!/writeln! rewritten to one vx_lit/vx_disp call per piece of the format string, in order");
        Some(out)
    }

    /// Rewrite the statements of a labelled block to a value, without `break 'label`.
    fn unlabel(&mut self, label: &str, stmts: &[Stmt]) -> Block {
        let mut out: Vec<Stmt> = vec![];
        for (i, s) in stmts.iter().enumerate() {
            let rest = &stmts[i + 1..];
            if !stmt_has_break(s, label) { out.push(s.clone()); continue; }
            match s {
                Stmt::Expr(Expr::Break(b), _) => {
                    match &b.expr { Some(e) => out.push(Stmt::Expr((**e).clone(), None)), None => {} }
                    return Block { brace_token: Default::default(), stmts: out };
                }
                Stmt::Expr(Expr::If(ife), semi) => {
                    let e = self.unlabel_if(label, ife, rest, semi.is_some() || !rest.is_empty());
                    out.push(Stmt::Expr(e, None));
                    return Block { brace_token: Default::default(), stmts: out };
                }
                Stmt::Expr(Expr::Match(m), _) => {
                    let mut m = m.clone();
                    for arm in &mut m.arms {
                        let mut st: Vec<Stmt> = match &*arm.body {
                            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                            e => vec![Stmt::Expr(e.clone(), None)],
                        };
                        if !rest.is_empty() { terminate(&mut st); st.extend(rest.iter().cloned()); }
                        let b = self.unlabel(label, &st);
                        arm.body = Box::new(parse_quote!(#b));
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Block { brace_token: Default::default(), stmts: out };
                }
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if !has_break(expr, label) => {
                    let then = self.unlabel(label, rest);
                    let ds = match &**d { Expr::Block(b) => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] };
                    let els = self.unlabel(label, &ds);
                    out.push(Stmt::Expr(parse_quote!(if let #pat = #expr #then else #els), None));
                    return Block { brace_token: Default::default(), stmts: out };
                }
                // let PAT = match/if with a diverging break in some arms
                Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) => {
                    match &**expr {
                        Expr::Match(m) => {
                            let mut m = m.clone();
                            for arm in &mut m.arms {
                                let mut st: Vec<Stmt> = match &*arm.body {
                                    Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                                    e => vec![Stmt::Expr(e.clone(), None)],
                                };
                                match st.last() {
                                    Some(Stmt::Expr(e, _)) if diverges(e) => {}
                                    Some(Stmt::Expr(e, None)) => {
                                        let l: Stmt = parse_quote!(let #pat = #e;);
                                        st.pop();
                                        st.push(l);
                                        st.extend(rest.iter().cloned());
                                    }
                                    _ => { self.fail("labelled break in a match arm"); }
                                }
                                let b = self.unlabel(label, &st);
                                arm.body = Box::new(parse_quote!(#b));
                            }
                            out.push(Stmt::Expr(Expr::Match(m), None));
                            return Block { brace_token: Default::default(), stmts: out };
                        }
                        Expr::If(ife) => {
                            fn go(ds: &mut Desugar, label: &str, ife: &ExprIf, pat: &Pat, rest: &[Stmt]) -> Expr {
                                let conv = |ds: &mut Desugar, b: &Block| {
                                    let mut st = b.stmts.clone();
                                    match st.last() {
                                        Some(Stmt::Expr(e, _)) if diverges(e) => {}
                                        Some(Stmt::Expr(e, None)) => {
                                            let l: Stmt = parse_quote!(let #pat = #e;);
                                            st.pop();
                                            st.push(l);
                                            st.extend(rest.iter().cloned());
                                        }
                                        _ => ds.fail("labelled break in an if branch"),
                                    }
                                    ds.unlabel(label, &st)
                                };
                                let t = conv(ds, &ife.then_branch);
                                let c = &ife.cond;
                                let e: Expr = match &ife.else_branch {
                                    Some((_, e)) => match &**e {
                                        Expr::Block(b) => { let b = conv(ds, &b.block); parse_quote!(#b) }
                                        Expr::If(i) => go(ds, label, i, pat, rest),
                                        _ => { ds.fail("else"); (**e).clone() }
                                    },
                                    None => { ds.fail("if without else"); parse_quote!({}) }
                                };
                                parse_quote!(if #c #t else #e)
                            }
                            let e = go(self, label, ife, pat, rest);
                            out.push(Stmt::Expr(e, None));
                            return Block { brace_token: Default::default(), stmts: out };
                        }
                        _ => { self.fail("labelled break inside an initialiser"); return Block { brace_token: Default::default(), stmts: out }; }
                    }
                }
                _ => { self.fail("labelled break in this position"); return Block { brace_token: Default::default(), stmts: out }; }
            }
        }
        Block { brace_token: Default::default(), stmts: out }
    }
    fn unlabel_if(&mut self, label: &str, ife: &ExprIf, rest: &[Stmt], stmt: bool) -> Expr {
        let conv = |ds: &mut Self, b: &[Stmt]| {
            let mut st = b.to_vec();
            let div = matches!(st.last(), Some(Stmt::Expr(e, _)) if diverges(e));
            if stmt && !div { terminate(&mut st); st.extend(rest.iter().cloned()); }
            ds.unlabel(label, &st)
        };
        let t = conv(self, &ife.then_branch.stmts);
        let c = &ife.cond;
        let e: Expr = match &ife.else_branch {
            Some((_, e)) => match &**e {
                Expr::Block(b) => { let b = conv(self, &b.block.stmts); parse_quote!(#b) }
                Expr::If(i) => { let e = self.unlabel_if(label, i, rest, stmt); parse_quote!({ #e }) }
                _ => { self.fail("else"); (**e).clone() }
            },
            None => { let b = conv(self, &[]); parse_quote!(#b) }
        };
        parse_quote!(if #c #t else #e)
    }
}

fn terminate(st: &mut [Stmt]) {
    if let Some(Stmt::Expr(e, semi @ None)) = st.last_mut()
        && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Verbatim(_))
    { *semi = Some(Default::default()); }
}

fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) => Some(m.method.to_string()),
        Expr::Call(c) => match &*c.func { Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()), _ => None },
        Expr::Try(t) => call_name(&t.expr),
        Expr::Assign(a) => match &*a.left {
            Expr::Path(p) => p.path.get_ident().map(|i| format!("{i}=")),
            Expr::Field(f) => Some(format!("{}=", f.member.to_token_stream())),
            _ => None,
        },
        Expr::Binary(b) => match (&*b.left, &b.op) {
            (Expr::Path(p), BinOp::AddAssign(_)) => p.path.get_ident().map(|i| format!("{i}+=")),
            (Expr::Path(p), BinOp::SubAssign(_)) => p.path.get_ident().map(|i| format!("{i}-=")),
            _ => None,
        },
        Expr::Macro(m) => m.mac.path.get_ident().map(|i| format!("{i}!")),
        _ => None,
    }
}
fn pat_names(p: &Pat, out: &mut Vec<String>) {
    struct P<'a>(&'a mut Vec<String>);
    impl<'ast> Visit<'ast> for P<'_> {
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.push(p.ident.to_string()); syn::visit::visit_pat_ident(self, p); }
    }
    P(out).visit_pat(p);
}

impl VisitMut for Desugar<'_> {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut stmts: Vec<Stmt> = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            // `let x = loop { .. break v .. };`
            if let Stmt::Local(l) = &s
                && matches!(&l.pat, Pat::Ident(_) | Pat::Tuple(_))
                && let Some(init) = &l.init
                && let Expr::Loop(lp) = &*init.expr
            {
                let mut lp = lp.clone();
                let x = match &l.pat { Pat::Ident(id) => id.ident.clone(), _ => quote::format_ident!("vx_broken") };
                let mut v = LoopValue { x: x.clone(), n: 0 };
                v.visit_block_mut(&mut lp.body);
                if v.n > 0 {
                    self.note("`let x = loop { .. break v .. }` written as an assignment before a plain `break`");
                    stmts.push(parse_quote!(let #x;));
                    stmts.push(Stmt::Expr(Expr::Loop(lp), None));
                    if let Pat::Tuple(p) = &l.pat { stmts.push(parse_quote!(let #p = #x;)); }
                    continue;
                }
            }
            stmts.push(s);
        }
        let mut out: Vec<Stmt> = Vec::new();
        for mut s in stmts {
            // dropped statements
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                if n.starts_with("debug_assert") { self.note("debug_assert dropped"); continue; }
            }
            if let Stmt::Item(_) = &s { self.note("nested item dropped (extracted separately where used)"); continue; }
            if let Stmt::Macro(m) = &s
                && let Some(n) = m.mac.path.get_ident()
                && let Some((pat, body)) = self.macros.get(&n.to_string()).cloned()
            {
                match crate::expand_macro(&pat, &body, m.mac.tokens.clone()).and_then(|t| syn::parse2::<Block>(quote!({ #t })).map_err(|e| e.to_string())) {
                    Ok(b) => { self.note(&format!("macro {n}! expanded by its definition")); s = Stmt::Expr(parse_quote!(#b), None); }
                    Err(e) => { self.fail(format!("macro {n}!: {e}")); continue; }
                }
            }
            // macro statements become expressions so that the expression rewriting sees them
            if let Stmt::Macro(m) = &s {
                let semi = m.semi_token;
                s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), semi);
            }
            let mut before = String::new();
            let mut after = String::new();
            let mut names = vec![];
            let mut cname = None;
            match &s {
                Stmt::Local(l) => { pat_names(&l.pat, &mut names); }
                Stmt::Expr(e, _) => cname = call_name(e),
                _ => {}
            }
            for n in &names {
                let k = self.let_count.entry(n.clone()).or_insert(0);
                let key = (n.clone(), *k);
                *k += 1;
                for (nn, kk, t) in &self.d.afterlet { if *nn == key.0 && *kk == key.1 { after.push_str(t); } }
                self.seen_lets.insert(key);
            }
            if let Some(n) = cname {
                let k = self.call_count.entry(n.clone()).or_insert(0);
                let key = (n, *k);
                *k += 1;
                for (nn, kk, t) in &self.d.aftercall { if *nn == key.0 && *kk == key.1 { after.push_str(t); } }
                for (nn, kk, t) in &self.d.beforecall { if *nn == key.0 && *kk == key.1 { before.push_str(t); } }
                self.seen_calls.insert(key);
            }
            let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
            if is_loop {
                if let Some(t) = self.d.beforeloop.get(&self.nloops) { before.push_str(t); }
                if let Some(t) = self.d.afterloop.get(&self.nloops) { after.push_str(t); }
            }
            if matches!(&s, Stmt::Expr(Expr::If(_), _)) {
                if let Some(t) = self.d.afterif.get(&self.nifs) { after.push_str(t); }
                self.nifs += 1;
            }
            if matches!(&s, Stmt::Expr(Expr::Match(_), _)) {
                if let Some(t) = self.d.aftermatch.get(&self.nmatches) { after.push_str(t); }
                self.nmatches += 1;
            }
            let plain_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_), _));
            // `&x` patterns in let
            let mut post = vec![];
            if let Stmt::Local(l) = &mut s { post = self.lower_refpats(&mut l.pat); }
            visit_mut::visit_stmt_mut(self, &mut s);
            if !before.is_empty() { let m = self.mark_stmt(before); out.push(m); }
            // an expression rewritten to a bare list of statements is spliced
            if !after.is_empty()
                && let Stmt::Expr(e, semi @ None) = &mut s
                && !is_loop && !matches!(e, Expr::If(_) | Expr::Match(_))
            { *semi = Some(Default::default()); }
            // (Verus takes a block right after a loop for the loop's body)
            if plain_loop && let Stmt::Expr(_, semi @ None) = &mut s { *semi = Some(Default::default()); }
            out.push(s);
            out.extend(post);
            if !after.is_empty() { let m = self.mark_stmt(after); out.push(m); }
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let pre = self.lower_refpats(&mut a.pat);
        visit_mut::visit_arm_mut(self, a);
        if !pre.is_empty() {
            let body = &a.body;
            a.body = Box::new(parse_quote!({ #(#pre)* #body }));
            if let Some((_, g)) = &mut a.guard { **g = parse_quote!({ #(#pre)* #g }); }
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = self.lower_closure(e) { *e = x; self.visit_expr_mut(e); return; }
        // number loops in source order: on entry
        match e {
            Expr::ForLoop(f) if for_rev(&f.expr).is_some() || matches!(&*f.expr, Expr::Reference(r) if r.mutability.is_some()) => {
                let n = self.nloops;
                self.nloops += 1;
                let pre = self.lower_refpats(&mut f.pat);
                if has_continue(&f.body) { self.fail("`continue` in a loop over indices"); return; }
                self.visit_block_mut(&mut f.body);
                let k = Ident::new(&format!("vx_k{n}"), Span::call_site());
                let pat = f.pat.clone();
                let mut stmts: Vec<Stmt>;
                let init: Stmt;
                let cond: Expr;
                if let Some(x) = for_rev(&f.expr) {
                    self.note("`for p in x.iter().rev()` written as a loop over the indices, downwards");
                    init = parse_quote!(let mut #k: usize = #x.len(););
                    cond = parse_quote!(#k > 0);
                    stmts = vec![parse_quote!(#k -= 1;), parse_quote!(let #pat = &#x[#k];)];
                    stmts.extend(pre);
                    stmts.extend(f.body.stmts.clone());
                    terminate_last(&mut stmts);
                } else {
                    self.note("`for p in &mut x` written as a loop over the indices");
                    let Expr::Reference(r) = &*f.expr else { unreachable!() };
                    let x = (*r.expr).clone();
                    init = parse_quote!(let mut #k: usize = 0;);
                    cond = parse_quote!(#k < #x.len());
                    stmts = vec![parse_quote!(let #pat = vx_at_mut(&mut #x, #k);)];
                    stmts.extend(pre);
                    stmts.extend(f.body.stmts.clone());
                    terminate_last(&mut stmts);
                    stmts.push(parse_quote!(#k += 1;));
                }
                let mut body = Block { brace_token: Default::default(), stmts };
                let inv = self.loop_parts(n, &mut body);
                *e = Expr::Verbatim(quote!({ #init while #cond #inv #body }));
                return;
            }
            Expr::ForLoop(f) => {
                let n = self.nloops;
                self.nloops += 1;
                let pre = self.lower_refpats(&mut f.pat);
                f.body.stmts.splice(0..0, pre);
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let inv = self.loop_parts(n, &mut f.body);
                let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body, &f.label);
                let var = match self.d.forvar.get(&n) {
                    Some(v) => { let v = Ident::new(v, Span::call_site()); quote!(#v :) }
                    None => quote!(),
                };
                *e = Expr::Verbatim(quote!(#label for #pat in #var #ex #inv #body));
                return;
            }
            Expr::While(w) => {
                let n = self.nloops;
                self.nloops += 1;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let label = w.label.clone();
                let chain = matches!(&*w.cond, Expr::Binary(_)) && has_let(&w.cond);
                if chain {
                    self.note("`while` with a let-chain rewritten to loop/if/break");
                    let mut cs = vec![];
                    conjuncts(&w.cond, &mut cs);
                    let brk: Expr = parse_quote!({ break; });
                    let inner = self.nest(&cs, w.body.clone(), Some(&brk));
                    let mut body = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(inner, None)] };
                    let inv = self.loop_parts(n, &mut body);
                    *e = Expr::Verbatim(quote!(#label loop #inv #body));
                } else {
                    if let Expr::Let(l) = &mut *w.cond {
                        let pre = self.lower_refpats(&mut l.pat);
                        w.body.stmts.splice(0..0, pre);
                    }
                    let mut body = w.body.clone();
                    let inv = self.loop_parts(n, &mut body);
                    let cond = &w.cond;
                    *e = Expr::Verbatim(quote!(#label while #cond #inv #body));
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.nloops;
                self.nloops += 1;
                self.visit_block_mut(&mut l.body);
                let mut body = l.body.clone();
                let inv = self.loop_parts(n, &mut body);
                let label = &l.label;
                *e = Expr::Verbatim(quote!(#label loop #inv #body));
                return;
            }
            Expr::Block(b) if b.label.is_some() => {
                let label = b.label.as_ref().unwrap().name.ident.to_string();
                let mut h = HasBreak { label: Some(&label), found: false, in_loop: false, depth: 0 };
                h.visit_block(&b.block);
                if h.in_loop { self.fail("break out of a labelled block from inside a loop"); return; }
                let nb = self.unlabel(&label, &b.block.stmts.clone());
                self.note("labelled block with `break 'l v` rewritten to if/else");
                *e = parse_quote!(#nb);
                self.visit_expr_mut(e);
                return;
            }
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_mut(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
                let chain = matches!(&*i.cond, Expr::Binary(_)) && has_let(&i.cond);
                if chain { self.note("let-chain rewritten to nested ifs"); }
                if has_let(&i.cond) {
                    let mut cs = vec![];
                    conjuncts(&i.cond, &mut cs);
                    let els = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
                    *e = self.nest(&cs, i.then_branch.clone(), els.as_ref());
                }
                return;
            }
            Expr::Match(m) => {
                let scrut = m.expr.to_token_stream().to_string();
                let mut arms = vec![];
                for a in std::mem::take(&mut m.arms) {
                    let mut a = a;
                    if let Pat::Ident(p) = &a.pat
                        && p.by_ref.is_some() && p.mutability.is_none()
                        && let Some((_, sub)) = &p.subpat
                    {
                        if scrut != format!("* {}", p.ident) { self.fail("`ref x @` pattern"); return; }
                        self.note("`ref x @ P` in a match on `*x` written as `P`");
                        a.pat = (**sub).clone();
                        while let Pat::Paren(q) = &a.pat { a.pat = (*q.pat).clone(); }
                    }
                    let mut names = vec![];
                    if let Pat::Or(o) = &a.pat {
                        pat_names(&o.cases[0], &mut names);
                        names.retain(|n| n.starts_with(|c: char| c.is_lowercase() || c == '_'));
                    }
                    if names.is_empty() { arms.push(a); continue; }
                    let Pat::Or(o) = a.pat.clone() else { unreachable!() };
                    self.note("alternatives with bindings written as one match arm each");
                    for c in o.cases { let mut b = a.clone(); b.pat = c; arms.push(b); }
                }
                m.arms = arms;
            }
            Expr::Closure(c) => {
                let mut pre = vec![];
                for p in c.inputs.iter_mut() { pre.extend(self.lower_refpats(p)); }
                self.visit_expr_mut(&mut c.body);
                if !pre.is_empty() {
                    let b = &c.body;
                    c.body = Box::new(parse_quote!({ #(#pre)* #b }));
                }
                return;
            }
            Expr::Reference(r) if self.d.opts.contains("strslice") && r.mutability.is_none() => {
                if let Expr::Index(i) = &*r.expr
                    && let Some(x) = self.str_slice(i)
                {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            Expr::Index(i) if self.d.opts.contains("strslice") => {
                if let Some(x) = self.str_slice(i) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let bytes: Vec<Lit> = b.value().into_iter().map(|b| Lit::Int(LitInt::new(&format!("{b}u8"), Span::call_site()))).collect();
                *e = parse_quote!(&[#(#bytes),*]);
                self.note("byte-string literal written as an array of its bytes");
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => { self.lits.insert(l.value()); }
            Expr::Try(t) => {
                if let Expr::Macro(m) = &*t.expr
                    && (m.mac.path.is_ident("write") || m.mac.path.is_ident("writeln"))
                {
                    let mac = m.mac.clone();
                    if let Some(st) = self.write_macro(&mac, mac.path.is_ident("writeln")) {
                        *e = parse_quote!({ #(#st)* });
                        visit_mut::visit_expr_mut(self, e);
                    }
                    return;
                }
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                match n.as_str() {
                    "write" | "writeln" => {
                        let mac = m.mac.clone();
                        if let Some(st) = self.write_macro(&mac, n == "writeln") {
                            *e = parse_quote!({ #(#st)* Ok::<(), FmtError>(()) });
                            visit_mut::visit_expr_mut(self, e);
                        }
                        return;
                    }
                    "unreachable" | "panic" | "todo" | "unimplemented" => {
                        *e = parse_quote!(vx_unreachable());
                        self.note("panicking macro replaced by a call with precondition false");
                        return;
                    }
                    "assert" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args && let Some(c) = a.first() { *e = parse_quote!(vx_assert(#c)); }
                        self.note("assert! replaced by a call with precondition");
                        return;
                    }
                    "assert_eq" => {
                        let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                        if let Ok(a) = args && a.len() >= 2 { let (x, y) = (&a[0], &a[1]); *e = parse_quote!(vx_assert(#x == #y)); }
                        return;
                    }
                    "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => { *e = parse_quote!({}); self.note("debug_assert dropped"); return; }
                    "matches" => {
                        // visit nothing: Verus accepts matches!
                        return;
                    }
                    _ => return,
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
