//@include prelude.vx
//@include utf8.vx
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst FxHashMap<KString, CmdDef> ==> VxDefs
//@subst EOI_TOK ==> (*vx_eoi())
//@include tokens.vx
use std::collections::VecDeque;

// ---- stand-ins ---------------------------------------------------------------------------------
/// the `kstring` crate: an immutable string
#[verifier::external_body]
pub struct KString(String);
impl View for KString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl KString {
    #[verifier::external_body]
    pub fn from_ref(s: &str) -> (r: KString) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
/// the label map of the global state: not looked at here
#[verifier::external_body]
pub struct VxLabels { x: () }
/// std's HashMap with string keys, as a mathematical map
#[verifier::external_body]
pub struct VxDefs { x: () }
impl View for VxDefs { type V = Map<Seq<char>, CmdDef>; uninterp spec fn view(&self) -> Map<Seq<char>, CmdDef>; }
impl VxDefs {
    #[verifier::external_body]
    pub fn get(&self, name: &str) -> (r: Option<&CmdDef>)
        ensures match r { Some(d) => self@.contains_key(name@) && *d == self@[name@], None => !self@.contains_key(name@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, name: &str) -> (r: bool) ensures r == self@.contains_key(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, name: KString, def: CmdDef) -> (r: Option<CmdDef>) ensures final(self)@ == old(self)@.insert(name@, def) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, name: &str) -> (r: Option<CmdDef>) ensures final(self)@ == old(self)@.remove(name@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, CmdDef>::empty() { unimplemented!() }
}
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };

// ---- the string pool (string_pool.rs) -----------------------------------------------------------
//@file crates/math-core/src/string_pool.rs
//@extract struct StringPool
/// handle `h` of the pool stands for the string `s`
pub open spec fn stands(p: StringPool, h: InternedStr, s: Seq<char>) -> bool {
    range_ok(p.0@, h.0 as int, h.1 as int) && sbytes(p.0@).subrange(h.0 as int, h.1 as int) == sbytes(s)
}
pub open spec fn valid(p: StringPool, h: InternedStr) -> bool { range_ok(p.0@, h.0 as int, h.1 as int) }
#[verifier::opaque]
pub open spec fn text(p: StringPool, h: InternedStr) -> Seq<char> { choose|s: Seq<char>| stands(p, h, s) }
/// a pool only grows at its end
pub open spec fn grows(a: StringPool, b: StringPool) -> bool { a.0@.len() <= b.0@.len() && b.0@.take(a.0@.len() as int) == a.0@ }
pub proof fn lemma_text(p: StringPool, h: InternedStr, s: Seq<char>)
    requires stands(p, h, s)
    ensures text(p, h) == s
{ reveal(text); let t = text(p, h); assert(stands(p, h, t)); lemma_encode_inj(s, t); }
pub proof fn lemma_valid_text(p: StringPool, h: InternedStr)
    requires valid(p, h)
    ensures stands(p, h, text(p, h))
{
    let a = h.0 as int; let b = h.1 as int;
    let k = lemma_bound_split(p.0@, a);
    let m = lemma_bound_split(p.0@, b);
    assert(k <= m) by { if m < k { lemma_take_mono(p.0@, m as int, k as int); } }
    let s = p.0@.subrange(k as int, m as int);
    assert(p.0@.take(m as int) =~= p.0@.take(k as int) + s);
    lemma_sbytes_concat(p.0@.take(k as int), s);
    let all = sbytes(p.0@);
    assert(all.take(b) == all.take(a) + sbytes(s));
    assert(all.take(a).len() == a);
    assert(sbytes(s) =~= (all.take(a) + sbytes(s)).skip(a));
    assert(sbytes(s) =~= all.take(b).skip(a));
    assert(all.take(b).skip(a) =~= all.subrange(a, b));
    assert(stands(p, h, s));
    reveal(text);
}
pub proof fn lemma_grows(a: StringPool, b: StringPool, h: InternedStr)
    requires grows(a, b), valid(a, h)
    ensures valid(b, h), text(b, h) == text(a, h)
{
    let t = b.0@.skip(a.0@.len() as int);
    assert(b.0@ =~= a.0@ + t);
    lemma_sbytes_concat(a.0@, t);
    lemma_bound_prefix(a.0@, t, h.0 as int);
    lemma_bound_prefix(a.0@, t, h.1 as int);
    lemma_valid_text(a, h);
    assert(sbytes(b.0@).subrange(h.0 as int, h.1 as int) =~= sbytes(a.0@).subrange(h.0 as int, h.1 as int));
    lemma_text(b, h, text(a, h));
}
/// a boundary in a prefix is a boundary in the whole
pub proof fn lemma_bound_prefix(a: Seq<char>, t: Seq<char>, i: int)
    requires is_bound(a, i)
    ensures is_bound(a + t, i)
{
    let k = lemma_bound_split(a, i);
    assert((a + t).take(k as int) =~= a.take(k as int));
    lemma_bound_take(a + t, k as int);
    assert(sbytes(a).take(i).len() == i);
}
impl StringPool {
//@fn StringPool::intern
//@ret r
//@subst self.0.len() ==> vx_len(&self.0)
//@spec
    ensures stands(*final(self), r, s@), text(*final(self), r) == s@, grows(*old(self), *final(self))
//@start
    let ghost a = self.0@;
//@end
    proof {
        let b = self.0@;
        lemma_sbytes_concat(a, s@);
        lemma_bound_take(b, a.len() as int);
        lemma_bound_take(b, b.len() as int);
        assert(b.take(a.len() as int) =~= a);
        assert(b.take(b.len() as int) =~= b);
        assert(sbytes(b).subrange(vx_ret.0 as int, vx_ret.1 as int) =~= sbytes(s@));
        lemma_text(*self, vx_ret, s@);
    }
//@endfn
//@fn StringPool::get
//@ret r
//@subst self.0.get_unwrap(index.0..index.1) ==> self.0.as_str().vx_range(index.0, index.1)
//@spec
    requires valid(*self, index)
    ensures r@ == text(*self, index)
//@end
    proof { lemma_text(*self, index, vx_ret@); }
//@endfn
}

// ---- definitions (custom_cmds.rs) ---------------------------------------------------------------
//@file crates/math-core/src/custom_cmds.rs
//@extract enum RecordedToken
//@extract struct CmdDef
//@extract struct CustomCmds
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<RecordedToken>, s: &[RecordedToken])
    ensures final(v)@ == old(v)@ + s@
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_sub<'a, T>(v: &'a Vec<T>, a: usize, b: usize) -> (r: Option<&'a [T]>)
    ensures match r { Some(x) => a <= b <= v@.len() && x@ == v@.subrange(a as int, b as int), None => !(a <= b <= v@.len()) }
{ v.get(a..b) }
//@subst self.tokens.extend_from_slice(body) ==> vx_extend(&mut self.tokens, body)
//@subst self.tokens.get(start..end) ==> vx_sub(&self.tokens, start, end)
pub open spec fn def_of(num_args: u8, class: Option<Class>, start: int, end: int) -> CmdDef { CmdDef { num_args, class, start: start as usize, end: end as usize } }
/// the meaning of a name in one store
pub open spec fn lookup(c: CustomCmds, name: Seq<char>, source: CmdSource) -> Option<Token> {
    if c.map@.contains_key(name) {
        let d = c.map@[name];
        Some(Token::CustomCmdRef(source, d.num_args, d.class, d.start, d.end))
    } else { None }
}
/// every definition delimits a part of the store
pub open spec fn defs_ok(c: CustomCmds) -> bool {
    forall|n: Seq<char>| #[trigger] c.map@.contains_key(n) ==> c.map@[n].start <= c.map@[n].end <= c.tokens@.len()
}
pub open spec fn local_ref(t: RecordedToken) -> bool { t matches RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, ..)) }
/// references of the tokens of a local store point backwards (`i`: position of the token)
pub open spec fn backwards(t: RecordedToken, i: int) -> bool {
    t matches RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, _, _, s, e)) ==> s <= e <= i
}
pub open spec fn local_ok(c: CustomCmds) -> bool { defs_ok(c) && forall|i: int| 0 <= i < c.tokens@.len() ==> backwards(#[trigger] c.tokens@[i], i) }
/// a copied token: what was in the local store is now in this one
pub open spec fn copied(l: Seq<RecordedToken>, a: RecordedToken, orig: Seq<RecordedToken>, b: RecordedToken, lo: int) -> bool {
    match a {
        RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, n, c, s, e)) =>
            (b matches RecordedToken::Token(Token::CustomCmdRef(CmdSource::Document, n2, c2, s2, e2)) && n2 == n && c2 == c
                && lo <= s2 <= e2 <= orig.len() && orig.subrange(s2 as int, e2 as int) == l.subrange(s as int, e as int)),
        _ => b == a,
    }
}
/// `out` is `orig` with every reference to the local store `l` replaced by a reference to a copy, which starts at or after `lo`
pub open spec fn absorbed(l: Seq<RecordedToken>, orig: Seq<RecordedToken>, out: Seq<RecordedToken>, lo: int) -> bool {
    out.len() == orig.len() && forall|i: int| lo <= i < out.len() ==> copied(l, orig[i], orig, #[trigger] out[i], lo)
}
/// how much copying a token causes
pub open spec fn weight(l: Seq<RecordedToken>, t: RecordedToken, bound: nat) -> nat
    decreases bound, 1nat, 0nat
{
    match t {
        RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, _, _, s, e)) => if s <= e && e <= bound && e <= l.len() { 1 + weights(l, s as int, e as int, e as nat) } else { 1 },
        _ => 1,
    }
}
/// of the tokens `s..e` of the local store itself
pub open spec fn weights(l: Seq<RecordedToken>, s: int, e: int, bound: nat) -> nat
    decreases bound, 0nat, e - s
{
    if s >= e || e > bound || s < 0 { 0 } else { weights(l, s, e - 1, (e - 1) as nat) + weight(l, l[e - 1], (e - 1) as nat) }
}
/// of the tokens `i..` of a sequence
pub open spec fn load(l: Seq<RecordedToken>, q: Seq<RecordedToken>, i: int) -> nat
    decreases q.len() - i
{
    if i < 0 || i >= q.len() { 0 } else { weight(l, q[i], l.len()) + load(l, q, i + 1) }
}
proof fn lemma_weight_bound(l: Seq<RecordedToken>, t: RecordedToken, i: int)
    requires 0 <= i <= l.len(), backwards(t, i)
    ensures weight(l, t, i as nat) == weight(l, t, l.len())
{ reveal_with_fuel(weight, 2); }
proof fn lemma_load_append(l: Seq<RecordedToken>, q: Seq<RecordedToken>, s: int, e: int, i: int)
    requires 0 <= s <= e <= l.len(), 0 <= i <= q.len(), forall|k: int| 0 <= k < l.len() ==> backwards(#[trigger] l[k], k)
    ensures load(l, q + l.subrange(s, e), i) == load(l, q, i) + weights(l, s, e, e as nat)
    decreases e - s, q.len() - i
{
    let m = l.subrange(s, e);
    let r = q + m;
    reveal_with_fuel(load, 2);
    if i < q.len() {
        lemma_load_append(l, q, s, e, i + 1);
        assert(r[i] == q[i]);
    } else if s < e {
        lemma_load_tail(l, q, s, e);
    } else {
        assert(r =~= q);
        reveal_with_fuel(weights, 2);
    }
}
proof fn lemma_load_tail(l: Seq<RecordedToken>, q: Seq<RecordedToken>, s: int, e: int)
    requires 0 <= s <= e <= l.len(), forall|k: int| 0 <= k < l.len() ==> backwards(#[trigger] l[k], k)
    ensures load(l, q + l.subrange(s, e), q.len() as int) == weights(l, s, e, e as nat)
    decreases e - s
{
    reveal_with_fuel(weights, 2);
    reveal_with_fuel(load, 2);
    if s < e {
        lemma_load_tail(l, q, s, e - 1);
        lemma_load_push(l, q + l.subrange(s, e - 1), l[e - 1], q.len() as int);
        assert(q + l.subrange(s, e) =~= (q + l.subrange(s, e - 1)).push(l[e - 1]));
        lemma_weight_bound(l, l[e - 1], e - 1);
    }
}
proof fn lemma_load_push(l: Seq<RecordedToken>, q: Seq<RecordedToken>, t: RecordedToken, i: int)
    requires 0 <= i <= q.len()
    ensures load(l, q.push(t), i) == load(l, q, i) + weight(l, t, l.len())
    decreases q.len() - i
{
    reveal_with_fuel(load, 2);
    if i < q.len() { lemma_load_push(l, q, t, i + 1); }
}
impl CustomCmds {
//@fn CustomCmds::get
//@ret r
//@spec
    ensures r == lookup(*self, name@, source)
//@endfn
//@fn CustomCmds::body
//@ret r
//@spec
    ensures match r { Some(x) => start <= end <= self.tokens@.len() && x@ == self.tokens@.subrange(start as int, end as int), None => !(start <= end <= self.tokens@.len()) }
//@endfn
//@fn CustomCmds::register
//@spec
    ensures final(self).tokens == old(self).tokens, final(self).map@ == old(self).map@.insert(name@, CmdDef { num_args, class: first_class, start, end })
//@endfn
//@fn CustomCmds::insert_or_replace
//@spec
    ensures final(self).tokens@ == old(self).tokens@ + body@,
        final(self).map@ == old(self).map@.insert(name@, CmdDef { num_args, class: first_class, start: old(self).tokens@.len() as usize, end: final(self).tokens@.len() as usize }),
        final(self).tokens@.len() <= usize::MAX
//@endfn
//@fn CustomCmds::insert
//@ret r
//@spec
    ensures r == !old(self).map@.contains_key(name@),
        !r ==> *final(self) == *old(self),
        r ==> final(self).tokens@.len() <= usize::MAX && final(self).tokens@ == old(self).tokens@ + body@ && final(self).map@ == old(self).map@.insert(name@, CmdDef { num_args, class: first_class, start: old(self).tokens@.len() as usize, end: final(self).tokens@.len() as usize }),
//@endfn
//@fn CustomCmds::absorb
//@ret r
//@spec
    requires local_ok(*local), forall|k: int| 0 <= k < body@.len() ==> backwards(#[trigger] body@[k], local.tokens@.len() as int)
    ensures final(self).map@ == old(self).map@, r.0 == old(self).tokens@.len(), r.1 == r.0 + body@.len(), r.1 <= final(self).tokens@.len(),
        final(self).tokens@.take(r.0 as int) == old(self).tokens@,
        exists|orig: Seq<RecordedToken>| #[trigger] absorbed(local.tokens@, orig, final(self).tokens@, r.0 as int) && orig.take(r.1 as int) == old(self).tokens@ + body@
            && (forall|k: int| r.0 <= k < orig.len() ==> backwards(#[trigger] orig[k], local.tokens@.len() as int))
            && forall|k: int| r.1 <= k < orig.len() ==> from_local(local.tokens@, #[trigger] orig[k]),
        final(self).tokens@.len() <= usize::MAX
//@start
    let ghost l = local.tokens@;
    let ghost old_tokens = self.tokens@;
    let ghost mut orig = self.tokens@ + body@;
//@loop 0
    invariant
        l == local.tokens@, local_ok(*local), self.map@ == old(self).map@, old_tokens == old(self).tokens@,
        start == old_tokens.len(), end == start + body@.len(), start <= i <= self.tokens@.len(), orig.len() == self.tokens@.len(), end <= orig.len(),
        orig.take(end as int) == old_tokens + body@, self.tokens@.take(start as int) == old_tokens,
        forall|k: int| start <= k < orig.len() ==> backwards(#[trigger] orig[k], l.len() as int),
        forall|k: int| end <= k < orig.len() ==> from_local(l, #[trigger] orig[k]),
        forall|k: int| start <= k < i ==> copied(l, orig[k], orig, #[trigger] self.tokens@[k], start as int),
        forall|k: int| i <= k < orig.len() ==> #[trigger] self.tokens@[k] == orig[k],
    decreases load(l, orig, i as int)
//@loopstart 0
    let ghost before = orig;
    let ghost toks = self.tokens@;
    proof {
        reveal_with_fuel(load, 2);
        reveal_with_fuel(weight, 2);
        if let RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, _, _, s, e)) = orig[i as int] {
            assert(backwards(orig[i as int], l.len() as int));
            lemma_load_append(l, orig, s as int, e as int, i + 1);
            assert((orig + l.subrange(s as int, e as int))[i as int] == orig[i as int]);
            orig = orig + l.subrange(s as int, e as int);
        }
    }
//@loopend 0
    proof {
        assert(orig.take(end as int) =~= before.take(end as int));
        assert(self.tokens@.take(start as int) =~= toks.take(start as int));
        assert forall|k: int| start <= k < i implies copied(l, orig[k], orig, #[trigger] self.tokens@[k], start as int) by {
            if k < i - 1 {
                assert(copied(l, before[k], before, toks[k], start as int));
                if let RecordedToken::Token(Token::CustomCmdRef(_, _, _, s2, e2)) = self.tokens@[k] {
                    if local_ref(before[k]) { assert(orig.subrange(s2 as int, e2 as int) =~= before.subrange(s2 as int, e2 as int)); }
                }
            } else {
                if let RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, _, _, s, e)) = before[k] {
                    assert(orig.subrange(before.len() as int, orig.len() as int) =~= l.subrange(s as int, e as int));
                }
            }
        }
        assert forall|k: int| start <= k < orig.len() implies backwards(#[trigger] orig[k], l.len() as int) by {
            if k < before.len() { assert(backwards(before[k], l.len() as int)); }
            else if let RecordedToken::Token(Token::CustomCmdRef(CmdSource::Local, _, _, s, e)) = before[i - 1] { assert(orig[k] == l[s + k - before.len()]); assert(backwards(l[s + k - before.len()], s + k - before.len())); }
        }
    }
//@end
    let vx_n = self.tokens.len();
    proof { assert(absorbed(l, orig, self.tokens@, start as int)); assert(self.tokens@.take(start as int) =~= old_tokens); }
//@endfn
//@fn CustomCmds::insert_or_replace_and_copy_local
//@spec
    requires local_ok(*local), forall|k: int| 0 <= k < body@.len() ==> backwards(#[trigger] body@[k], local.tokens@.len() as int)
    ensures kept_document(*old(self), *final(self), *local, name@, num_args, first_class, body@)
//@endfn
//@fn CustomCmds::insert_and_copy_local
//@ret r
//@spec
    requires local_ok(*local), forall|k: int| 0 <= k < body@.len() ==> backwards(#[trigger] body@[k], local.tokens@.len() as int)
    ensures r == !old(self).map@.contains_key(name@), !r ==> *final(self) == *old(self), r ==> kept_document(*old(self), *final(self), *local, name@, num_args, first_class, body@)
//@endfn
//@fn CustomCmds::remove
//@spec
    ensures final(self).tokens == old(self).tokens, final(self).map@ == old(self).map@.remove(name@)
//@endfn
//@fn CustomCmds::clear
//@spec
    ensures final(self).tokens@.len() == 0, final(self).map@ == Map::<Seq<char>, CmdDef>::empty()
//@endfn
}
/// the definition of `name` with `body` is in store `b`, with everything it refers to in `local`
pub open spec fn from_local(l: Seq<RecordedToken>, t: RecordedToken) -> bool { exists|j: int| 0 <= j < l.len() && #[trigger] l[j] == t }
pub open spec fn kept_document(a: CustomCmds, b: CustomCmds, local: CustomCmds, name: Seq<char>, num_args: u8, class: Option<Class>, body: Seq<RecordedToken>) -> bool {
    let lo = a.tokens@.len() as int;
    let hi = lo + body.len();
    &&& b.map@ == a.map@.insert(name, CmdDef { num_args, class, start: lo as usize, end: hi as usize })
    &&& hi <= b.tokens@.len() <= usize::MAX
    &&& b.tokens@.take(lo) == a.tokens@
    &&& exists|orig: Seq<RecordedToken>| #[trigger] absorbed(local.tokens@, orig, b.tokens@, lo) && orig.take(hi) == a.tokens@ + body
            && (forall|k: int| lo <= k < orig.len() ==> backwards(#[trigger] orig[k], local.tokens@.len() as int))
            && forall|k: int| hi <= k < orig.len() ==> from_local(local.tokens@, #[trigger] orig[k])
}

// ---- the token queue (token_queue.rs) -----------------------------------------------------------
//@file crates/math-core/src/error.rs
//@extract enum DelimiterModifier
//@extract enum Place
//@extract enum LimitedUsabilityToken
//@extract enum LatexErrKind #[allow(inconsistent_fields)]
//@extract struct LatexError
//@file crates/math-core/src/global_state.rs
//@extract struct GlobalState
//@file crates/math-core/src/commands.rs
//@file crates/math-core/src/lib.rs
//@extract enum UnicodeSubstitution #[derive(Clone, Copy)]
//@extract struct MaxExpansions #[derive(Clone, Copy)]
//@extract struct ParserConfig
//@file crates/math-core/src/lexer.rs
//@extract enum LexerOutput #[derive(Clone, Copy)]
//@file crates/math-core/src/token_queue.rs
//@extract struct QueuedTok #[derive(Clone, Copy)]
//@extract struct Stores
//@extract struct TokenQueue
//@extract const MAX_QUEUED_TOKENS

/// A token that is written in the constants of the crate or made by the lexer (trusted: the tables of commands.rs and the
/// lexer hold no references into a store, no unresolved commands, and parameters only in the bodies of `Token::CustomCmd`).
pub uninterp spec fn constant(t: Token) -> bool;
#[verifier::external_body]
pub proof fn axiom_constant(t: Token)
    requires constant(t)
    ensures !(t is CustomCmdRef), !(t is UnresolvedCommand), !(t is CustomCmdArg),
        t matches Token::CustomCmdArgInput(n) ==> n < 9,
        t matches Token::MathOrTextMode(m, _) ==> constant(*m) && !(*m is MathOrTextMode),
        t matches Token::CustomCmd(_, ts) ==> forall|i: int| 0 <= i < ts@.len() ==> constant(#[trigger] ts@[i]) || ts@[i] is CustomCmdArg,
        t matches Token::MathChoiceInternal(_, c) ==> constant(c.display) && constant(c.text) && constant(c.script) && constant(c.scriptscript)
{ }
#[verifier::external_body]
pub proof fn axiom_plain_constants()
    ensures constant(Token::Eoi), constant(Token::Relax), constant(Token::GroupBegin), constant(Token::GroupEnd)
{ }
pub uninterp spec fn builtin(cfg: ParserConfig, name: Seq<char>) -> Option<Token>;
#[verifier::external_body]
pub fn resolve_builtin_cmd(cfg: &ParserConfig, name: &str) -> (r: Option<Token>)
    ensures r == builtin(*cfg, name@)
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_builtin(cfg: ParserConfig, name: Seq<char>)
    ensures builtin(cfg, name) matches Some(t) ==> constant(t) && !(t is Whitespace)
{ }
/// The lexer: an endless row of outputs, which are the end of the input from some point on.
#[verifier::external_body]
pub struct Lexer<'a> { x: &'a str }
pub uninterp spec fn nth<'a>(l: Lexer<'a>, i: int) -> LexerOutput<'a>;
/// how many outputs there are at most before the end of the input
pub uninterp spec fn left(l: Lexer<'_>) -> nat;
#[verifier::external_body]
pub proof fn axiom_end(l: Lexer)
    ensures is_end(nth(l, left(l) as int))
{ }
pub open spec fn is_end(o: LexerOutput) -> bool { o matches LexerOutput::Token(ts) && ts.0 is Eoi }
impl<'a> Lexer<'a> {
    #[verifier::external_body]
    pub fn next_token(&mut self) -> (r: Result<LexerOutput<'a>, Box<LatexError>>)
        ensures r matches Ok(t) ==> t == nth(*old(self), 0)
            && (forall|i: int| 0 <= i ==> #[trigger] nth(*final(self), i) == nth(*old(self), i + 1))
            && (t matches LexerOutput::Token(ts) ==> constant(ts.0))
            && (left(*final(self)) < left(*old(self)) || is_end(t))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_eoi() -> (r: &'static QueuedTok<'static>) ensures r.0.0 is Eoi, r.1 is None { unimplemented!() }
pub uninterp spec fn class_of(t: Token) -> Option<Class>;
impl Token {
    #[verifier::external_body]
    pub fn class(&self) -> (r: Option<Class>) ensures r == class_of(*self), *self is Eoi ==> r == Some(Class::End) { unimplemented!() }
}
pub trait VxDeque<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => i < self.vx_seq().len() && *x == self.vx_seq()[i as int], None => i >= self.vx_seq().len() };
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vx_seq().len() == 0);
    fn vx_front(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => 0 < self.vx_seq().len() && *x == self.vx_seq()[0], None => 0 == self.vx_seq().len() };
}
impl<T> VxDeque<T> for VecDeque<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { self.is_empty() }
    #[verifier::external_body]
    fn vx_front(&self) -> (r: Option<&T>) { self.front() }
}
#[verifier::external_body]
pub fn vx_at_mut<'a, T>(q: &'a mut VecDeque<T>, i: usize) -> (r: &'a mut T)
    requires i < old(q)@.len()
    ensures *r == old(q)@[i as int], final(q)@ == old(q)@.update(i as int, *final(r))
{ &mut q[i] }
/// `queue.iter()` and `queue.range(i..)`
pub struct VxIter<'a, 's> { pub q: &'a VecDeque<QueuedTok<'s>>, pub i: usize }
pub fn vx_iter<'a, 's>(q: &'a VecDeque<QueuedTok<'s>>, i: usize) -> (r: VxIter<'a, 's>) ensures r.q == q, r.i == i { VxIter { q, i } }
impl<'a, 's> VxIter<'a, 's> {
    pub fn next(&mut self) -> (r: Option<&'a QueuedTok<'s>>)
        ensures final(self).q == old(self).q, match r {
            Some(x) => old(self).i < old(self).q@.len() && *x == old(self).q@[old(self).i as int] && final(self).i == old(self).i + 1,
            None => old(self).i >= old(self).q@.len() && final(self).i == old(self).i }
    {
        if self.i < self.q.len() { self.i += 1; Some(&self.q[self.i - 1]) } else { None }
    }
}
//@subst self.queue.get ==> self.queue.vx_get
//@subst self.queue.is_empty() ==> self.queue.vx_is_empty()
//@subst self.queue.front() ==> self.queue.vx_front()
//@subst self.queue.iter() ==> vx_iter(&self.queue, 0)
//@subst self.queue.range(start..) ==> vx_iter(&self.queue, start)

// ---- what a token in the queue means -------------------------------------------------------------
/// the meaning of a command name: the snippet's definitions first, then those kept from earlier snippets, then the configured ones, then the built-in commands
pub open spec fn resolve(st: Stores, name: Seq<char>) -> Option<Token> {
    if lookup(st.local_cmds, name, CmdSource::Local) is Some { lookup(st.local_cmds, name, CmdSource::Local) }
    else if lookup(st.global_state.custom_cmds, name, CmdSource::Document) is Some { lookup(st.global_state.custom_cmds, name, CmdSource::Document) }
    else if lookup(st.parser_cfg.custom_cmds_from_cfg, name, CmdSource::Config) is Some { lookup(st.parser_cfg.custom_cmds_from_cfg, name, CmdSource::Config) }
    else { builtin(*st.parser_cfg, name) }
}
pub enum V { Tok(Token), Name(Seq<char>) }
/// a token as it matters: unresolved names are the name
pub struct Item { pub v: V, pub span: Span, pub name: Option<Seq<char>> }
pub open spec fn vtok(p: StringPool, t: Token) -> V { match t { Token::UnresolvedCommand(h) => V::Name(text(p, h)), _ => V::Tok(t) } }
pub open spec fn vname(n: Option<&str>) -> Option<Seq<char>> { match n { Some(s) => Some(s@), None => None } }
pub open spec fn item(p: StringPool, q: QueuedTok) -> Item { Item { v: vtok(p, q.0.0), span: q.0.1, name: vname(q.1) } }
pub open spec fn meaning(st: Stores, name: Seq<char>) -> V { match resolve(st, name) { Some(t) => V::Tok(t), None => V::Name(name) } }
pub open spec fn lexed(st: Stores, o: LexerOutput) -> Item {
    match o {
        LexerOutput::Token(ts) => Item { v: V::Tok(ts.0), span: ts.1, name: None },
        LexerOutput::CommandName(n, sp) => Item { v: meaning(st, n@), span: sp, name: Some(n@) },
    }
}
/// the tokens still to come: those in the queue, then those the lexer will hand out
pub open spec fn at(tq: TokenQueue, i: int) -> Item {
    if i < tq.queue@.len() { item(tq.cmd_names, tq.queue@[i]) } else { lexed(tq.stores, nth(tq.lexer, i - tq.queue@.len())) }
}
pub open spec fn store_of(st: Stores, s: CmdSource) -> Seq<RecordedToken> {
    match s { CmdSource::Config => st.parser_cfg.custom_cmds_from_cfg.tokens@, CmdSource::Document => st.global_state.custom_cmds.tokens@, CmdSource::Local => st.local_cmds.tokens@ }
}
pub open spec fn ref_ok(st: Stores, t: Token) -> bool { t matches Token::CustomCmdRef(src, _, _, s, e) ==> s <= e <= store_of(st, src).len() }
pub open spec fn tok_ok(st: Stores, t: Token) -> bool { constant(t) || (t is CustomCmdRef && ref_ok(st, t)) }
pub open spec fn stored_ok(st: Stores, t: RecordedToken) -> bool { t matches RecordedToken::Token(x) ==> x is CustomCmdArg || tok_ok(st, x) }
pub open spec fn stores_ok(st: Stores) -> bool {
    &&& local_ok(st.local_cmds) && defs_ok(st.global_state.custom_cmds) && defs_ok(st.parser_cfg.custom_cmds_from_cfg)
    &&& forall|i: int| 0 <= i < st.local_cmds.tokens@.len() ==> stored_ok(st, #[trigger] st.local_cmds.tokens@[i])
    &&& forall|i: int| 0 <= i < st.global_state.custom_cmds.tokens@.len() ==> stored_ok(st, #[trigger] st.global_state.custom_cmds.tokens@[i]) && !local_ref(st.global_state.custom_cmds.tokens@[i])
    &&& forall|i: int| 0 <= i < st.parser_cfg.custom_cmds_from_cfg.tokens@.len() ==> stored_ok(st, #[trigger] st.parser_cfg.custom_cmds_from_cfg.tokens@[i]) && !local_ref(st.parser_cfg.custom_cmds_from_cfg.tokens@[i])
}
/// a queued token means what its name means now
pub open spec fn queued_ok(st: Stores, p: StringPool, q: QueuedTok) -> bool {
    &&& tok_ok(st, q.0.0) || (q.0.0 matches Token::UnresolvedCommand(h) && valid(p, h) && resolve(st, text(p, h)) is None)
    &&& q.1 matches Some(n) ==> vtok(p, q.0.0) == meaning(st, n@)
}
pub open spec fn all_ok(st: Stores, p: StringPool, q: Seq<QueuedTok>) -> bool { forall|i: int| 0 <= i < q.len() ==> queued_ok(st, p, #[trigger] q[i]) }
pub open spec fn blank_tok(q: QueuedTok) -> bool { q.0.0 is Whitespace }
/// the first token that is no blank
pub open spec fn first_solid(q: Seq<QueuedTok>, n: int) -> bool { 0 <= n < q.len() && !blank_tok(q[n]) && forall|i: int| 0 <= i < n ==> blank_tok(#[trigger] q[i]) }
impl TokenQueue<'_, '_> {
    pub open spec fn base(self) -> bool { stores_ok(self.stores) && all_ok(self.stores, self.cmd_names, self.queue@) && !self.lexer_is_eoi }
    pub open spec fn good(self) -> bool { self.base() && first_solid(self.queue@, self.next_non_whitespace as int) }
    /// nothing but the queue and the lexer moved
    pub open spec fn kept(self, o: Self) -> bool { self.stores == o.stores && grows(o.cmd_names, self.cmd_names) }
}
proof fn lemma_meaning_ok(st: Stores, p: StringPool, name: Seq<char>)
    requires stores_ok(st)
    ensures resolve(st, name) matches Some(t) ==> tok_ok(st, t) && vtok(p, t) == V::Tok(t) && vtok(p, t) == meaning(st, name)
{
    axiom_builtin(*st.parser_cfg, name);
    if let Some(t) = builtin(*st.parser_cfg, name) { axiom_constant(t); }
}
proof fn lemma_item_grows(st: Stores, a: StringPool, b: StringPool, q: QueuedTok)
    requires grows(a, b), queued_ok(st, a, q)
    ensures queued_ok(st, b, q), item(b, q) == item(a, q)
{ if let Token::UnresolvedCommand(h) = q.0.0 { if constant(q.0.0) { axiom_constant(q.0.0); } lemma_grows(a, b, h); } }
proof fn lemma_all_grows(st: Stores, a: StringPool, b: StringPool, q: Seq<QueuedTok>)
    requires grows(a, b), all_ok(st, a, q)
    ensures all_ok(st, b, q), forall|i: int| 0 <= i < q.len() ==> item(b, #[trigger] q[i]) == item(a, q[i])
{
    assert forall|i: int| 0 <= i < q.len() implies item(b, #[trigger] q[i]) == item(a, q[i]) && queued_ok(st, b, q[i]) by { lemma_item_grows(st, a, b, q[i]); }
}
proof fn lemma_grows_trans(a: StringPool, b: StringPool, c: StringPool)
    requires grows(a, b), grows(b, c)
    ensures grows(a, c)
{ assert(c.0@.take(a.0@.len() as int) =~= b.0@.take(a.0@.len() as int)); }
proof fn lemma_grows_refl(a: StringPool) ensures grows(a, a) { assert(a.0@.take(a.0@.len() as int) =~= a.0@); }
impl<'source> QueuedTok<'source> {
//@fn QueuedTok::new
//@opt noconst
//@ret r
//@spec
    ensures r.0 == tokspan, r.1 == name
//@endfn
//@fn QueuedTok::token
//@ret r
//@spec
    ensures *r == self.0.0
//@endfn
//@fn QueuedTok::tokspan
//@ret r
//@spec
    ensures *r == self.0
//@endfn
//@fn QueuedTok::into_tokspan
//@ret r
//@spec
    ensures r == self.0
//@endfn
//@fn QueuedTok::span
//@ret r
//@spec
    ensures r == self.0.1
//@endfn
//@fn QueuedTok::name
//@ret r
//@spec
    ensures r == self.1
//@endfn
//@fn QueuedTok::with_token
//@ret r
//@spec
    ensures r.0.0 == token, r.0.1 == self.0.1, r.1 == self.1
//@endfn
//@fn QueuedTok::unwrap_math
//@ret r
//@spec
    ensures r.0.0 == math(self.0.0), r.0.1 == self.0.1, r.1 == self.1
//@endfn
}
impl From<Token> for QueuedTok<'_> {
//@fn <From~Token>QueuedTok::from
//@ret r
//@vis
//@endfn
}
impl FromSpecImpl<Token> for QueuedTok<'_> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(token: Token) -> Self { QueuedTok(TokSpan(token, Span { start: 0, end: 0 }), None) }
}
impl From<TokSpan> for QueuedTok<'_> {
//@fn <From~TokSpan>QueuedTok::from
//@ret r
//@vis
//@endfn
}
impl FromSpecImpl<TokSpan> for QueuedTok<'_> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(t: TokSpan) -> Self { QueuedTok(t, None) }
}
impl From<QueuedTok<'_>> for TokSpan {
//@fn <From~QueuedTok>TokSpan::from
//@ret r
//@vis
//@endfn
}
impl<'a> FromSpecImpl<QueuedTok<'a>> for TokSpan {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(q: QueuedTok<'a>) -> Self { q.0 }
}
impl Stores<'_, '_> {
//@fn Stores::resolve_command
//@ret r
//@spec
    ensures r == resolve(*self, name@)
//@endfn
//@fn Stores::get_body
//@ret r
//@spec
    ensures match r { Some(x) => start <= end <= store_of(*self, source).len() && x@ == store_of(*self, source).subrange(start as int, end as int), None => !(start <= end <= store_of(*self, source).len()) }
//@endfn
}
//@fn is_not_whitespace
//@ret r
//@spec
    ensures r == (if *tok is Whitespace { None } else { Some(idx) })
//@endfn
//@fn has_class
//@ret r
//@subst tok.class().map(|class| (idx, class)) ==> match tok.class() { Some(class) => Some((idx, class)), None => None }
//@spec
    ensures r == (match class_of(*tok) { Some(c) => Some((idx, c)), None => None }), *tok is Eoi ==> r is Some
//@endfn
pub open spec fn loaded(o: TokenQueue, f: TokenQueue) -> bool {
    &&& f.base() && f.kept(o) && f.next_non_whitespace == o.next_non_whitespace
    &&& f.queue@.len() > o.queue@.len()
    &&& forall|i: int| 0 <= i < o.queue@.len() ==> #[trigger] f.queue@[i] == o.queue@[i]
    &&& forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, i)
}
pub mod deque {
    use super::*;
    #[verifier::external_body]
    pub broadcast proof fn axiom_deque_len(q: VecDeque<QueuedTok>) ensures #[trigger] q@.len() <= isize::MAX { }
}
broadcast use deque::axiom_deque_len;
/// the stream lost its first `n + 1` tokens
pub open spec fn taken(o: TokenQueue, f: TokenQueue, n: int) -> bool { f.good() && f.kept(o) && forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, n + 1 + i) }
pub open spec fn is_math(o: TokenQueue, f: TokenQueue, t: QueuedTok) -> bool {
    let q = o.queue@[o.next_non_whitespace as int];
    t == QueuedTok(TokSpan(math(q.0.0), q.0.1), q.1) && queued_ok(f.stores, f.cmd_names, q) && item(f.cmd_names, q) == at(o, o.next_non_whitespace as int)
}
pub open spec fn allowed(o: TokenQueue, t: Token) -> bool { !(t is UnresolvedCommand) || o.stores.parser_cfg.ignore_unknown_commands }
proof fn lemma_unresolved(st: Stores, p: StringPool, q: QueuedTok)
    requires queued_ok(st, p, q)
    ensures q.0.0 matches Token::UnresolvedCommand(h) ==> valid(p, h), math(q.0.0) is UnresolvedCommand ==> math(q.0.0) == q.0.0, vtok(p, math(q.0.0)) == vmath(vtok(p, q.0.0))
{ if constant(q.0.0) { axiom_constant(q.0.0); if let Token::MathOrTextMode(m, _) = q.0.0 { axiom_constant(*m); } } }
pub open spec fn vmath(v: V) -> V { match v { V::Tok(t) => V::Tok(math(t)), n => n } }
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::resolve_lexed
//@ret r
//@spec
    requires stores_ok(old(self).stores), lexed matches LexerOutput::Token(ts) ==> constant(ts.0)
    ensures final(self).kept(*old(self)), final(self).queue == old(self).queue, final(self).lexer == old(self).lexer, final(self).lexer_is_eoi == old(self).lexer_is_eoi,
        final(self).next_non_whitespace == old(self).next_non_whitespace,
        queued_ok(final(self).stores, final(self).cmd_names, r), item(final(self).cmd_names, r) == crate::lexed(old(self).stores, lexed)
//@start
    proof {
        lemma_grows_refl(self.cmd_names);
        match lexed { LexerOutput::Token(ts) => { axiom_constant(ts.0); } LexerOutput::CommandName(n, _) => { lemma_meaning_ok(self.stores, self.cmd_names, n@); } }
    }
//@endfn
//@fn TokenQueue::cmd_name
//@ret r
//@spec
    requires valid(self.cmd_names, name)
    ensures r@ == text(self.cmd_names, name)
//@endfn
//@fn TokenQueue::load_token
//@sig fn load_token<T, P: Fn(usize, &Token) -> Option<T>>(&mut self, predicate: P) -> (r: Result<Option<T>, Box<LatexError>>)
//@spec
    requires old(self).base(), forall|i: usize, t: Token| #[trigger] call_requires(predicate, (i, &t)),
        forall|i: usize, t: Token, r: Option<T>| #[trigger] call_ensures(predicate, (i, &t), r) && t is Eoi ==> r is Some
    ensures r matches Ok(x) ==> x is Some && loaded(*old(self), *final(self))
        && call_ensures(predicate, ((final(self).queue@.len() - 1) as usize, &final(self).queue@.last().0.0), x)
        && forall|k: int| old(self).queue@.len() <= k < final(self).queue@.len() - 1 ==> call_ensures(predicate, (k as usize, &(#[trigger] final(self).queue@[k]).0.0), None::<T>)
//@loop 0
    invariant self.base(), self.kept(*old(self)), self.next_non_whitespace == old(self).next_non_whitespace, self.queue@.len() == starting_len + non_skipped_offset, starting_len == old(self).queue@.len(),
        forall|i: usize, t: Token| #[trigger] call_requires(predicate, (i, &t)),
        forall|i: usize, t: Token, r: Option<T>| #[trigger] call_ensures(predicate, (i, &t), r) && t is Eoi ==> r is Some,
        forall|i: int| 0 <= i < starting_len ==> #[trigger] self.queue@[i] == old(self).queue@[i],
        forall|i: int| 0 <= i ==> #[trigger] at(*self, i) == at(*old(self), i),
        forall|k: int| starting_len <= k < self.queue@.len() ==> call_ensures(predicate, (k as usize, &(#[trigger] self.queue@[k]).0.0), None::<T>),
    decreases left(self.lexer)
//@loopstart 0
    let ghost a = *self;
    proof { }
//@aftercall push_back
    proof {
        lemma_all_grows(a.stores, a.cmd_names, self.cmd_names, a.queue@);
        lemma_grows_trans(old(self).cmd_names, a.cmd_names, self.cmd_names);
        
        let n = a.queue@.len() as int;
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), i) by {
            assert(at(a, i) == at(*old(self), i));
            if i > n { assert(nth(self.lexer, i - n - 1) == nth(a.lexer, i - n)); }
        }
    }
//@beforeloop 0
    proof { lemma_grows_refl(self.cmd_names); }
//@endfn
//@fn TokenQueue::load_token_skip_whitespace
//@ret r
//@spec
    requires old(self).base()
    ensures r matches Ok(i) ==> loaded(*old(self), *final(self)) && i == final(self).queue@.len() - 1 && !blank_tok(final(self).queue@.last())
        && forall|k: int| old(self).queue@.len() <= k < i ==> blank_tok(#[trigger] final(self).queue@[k])
//@start
    proof { }
//@endfn
//@fn TokenQueue::find_next_non_whitespace
//@ret r
//@spec
    ensures match r { Some(i) => first_solid(self.queue@, i as int), None => forall|i: int| 0 <= i < self.queue@.len() ==> blank_tok(#[trigger] self.queue@[i]) }
//@loop 0
    invariant_except_break
        vx_it.i == vx_idx, vx_found is None, forall|i: int| 0 <= i < vx_idx ==> blank_tok(#[trigger] self.queue@[i])
    invariant vx_it.q == self.queue, vx_idx <= self.queue@.len()
    ensures match vx_found { Some(i) => first_solid(self.queue@, i as int), None => forall|i: int| 0 <= i < self.queue@.len() ==> blank_tok(#[trigger] self.queue@[i]) }
    decreases self.queue@.len() - vx_idx
//@loopstart 0
    proof { }
//@endfn
//@fn TokenQueue::ensure_next_non_whitespace
//@ret r
//@spec
    requires old(self).base()
    ensures r is Ok ==> final(self).good() && final(self).kept(*old(self)) && final(self).queue@.len() >= old(self).queue@.len()
        && (forall|i: int| 0 <= i < old(self).queue@.len() ==> #[trigger] final(self).queue@[i] == old(self).queue@[i])
        && (forall|i: int| 0 <= i ==> #[trigger] at(*final(self), i) == at(*old(self), i))
//@start
    proof { lemma_grows_refl(self.cmd_names); }
//@afterlet pos
    let ghost mid = *self;
//@end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), i) by { assert(at(mid, i) == at(*old(self), i)); }
    }
//@endfn
//@fn TokenQueue::peek
//@ret r
//@spec
    requires self.good()
    ensures *r == self.queue@[self.next_non_whitespace as int].0
//@endfn
//@fn TokenQueue::peek_any_token
//@ret r
//@spec
    requires self.good()
    ensures *r == self.queue@[0].0
//@endfn
//@fn TokenQueue::peek_any_keeping_name
//@ret r
//@spec
    requires self.good()
    ensures *r == self.queue@[0]
//@endfn
//@fn TokenQueue::reject_unknown_command
//@ret r
//@spec
    requires self.good(), tokspan.0 matches Token::UnresolvedCommand(h) ==> valid(self.cmd_names, h)
    ensures r is Err <==> tokspan.0 is UnresolvedCommand && !self.stores.parser_cfg.ignore_unknown_commands
//@endfn
//@fn TokenQueue::next
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), old(self).next_non_whitespace as int) && (exists|q: QueuedTok| #[trigger] is_math(*old(self), *final(self), q) && q.0 == t)
        && t.0 == math(old(self).queue@[old(self).next_non_whitespace as int].0.0) && t.1 == at(*old(self), old(self).next_non_whitespace as int).span
        && allowed(*old(self), t.0)
//@endfn
//@fn TokenQueue::next_keeping_name
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), old(self).next_non_whitespace as int) && is_math(*old(self), *final(self), t) && allowed(*old(self), t.0.0)
//@afterlet ret
    proof { lemma_unresolved(self.stores, self.cmd_names, old(self).queue@[old(self).next_non_whitespace as int]); }
//@endfn
//@fn TokenQueue::next_preserving_mode
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), old(self).next_non_whitespace as int) && allowed(*old(self), t.0.0)
        && t == old(self).queue@[old(self).next_non_whitespace as int] && item(final(self).cmd_names, t) == at(*old(self), old(self).next_non_whitespace as int) && queued_ok(final(self).stores, final(self).cmd_names, t)
//@forvar 0 it
//@loop 0
    invariant self.base(), self.stores == old(self).stores, self.cmd_names == old(self).cmd_names, self.lexer == old(self).lexer, self.next_non_whitespace == old(self).next_non_whitespace, old(self).good(), 
        self.queue@ == old(self).queue@.skip(it.index@ as int), it.seq().len() == old(self).next_non_whitespace
//@loopstart 0
    let ghost a = self.queue@;
//@loopend 0
    proof { assert(self.queue@ =~= old(self).queue@.skip(it.index@ + 1)); }
//@afterloop 0
    proof {
        assert(self.queue@ == old(self).queue@.skip(old(self).next_non_whitespace as int));
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), old(self).next_non_whitespace + i) by { }
        assert(self.queue@[0] == old(self).queue@[old(self).next_non_whitespace as int]);
    }
    let ghost mid = *self;
//@beforeloop 0
    proof { assert(self.queue@ =~= old(self).queue@.skip(0)); }
//@endfn
//@fn TokenQueue::next_allowing_unresolved_command
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), old(self).next_non_whitespace as int) && is_math(*old(self), *final(self), t)
//@aftercall ensure_next_non_whitespace
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), old(self).next_non_whitespace + 1 + i) by { assert(at(popped, i) == at(mid, i + 1)); }
        let q = old(self).queue@[old(self).next_non_whitespace as int];
        assert(q == mid.queue@[0]);
        lemma_item_grows(self.stores, popped.cmd_names, self.cmd_names, q);
        lemma_unresolved(self.stores, self.cmd_names, q);
    }
//@beforecall ensure_next_non_whitespace
    let ghost popped = *self;
    proof { assert forall|i: int| 0 <= i implies #[trigger] at(popped, i) == at(mid, i + 1) by { } }
//@forvar 0 it
//@loop 0
    invariant self.base(), self.stores == old(self).stores, self.cmd_names == old(self).cmd_names, self.lexer == old(self).lexer, self.next_non_whitespace == old(self).next_non_whitespace, old(self).good(), 
        self.queue@ == old(self).queue@.skip(it.index@ as int), it.seq().len() == old(self).next_non_whitespace
//@loopstart 0
    let ghost a = self.queue@;
//@loopend 0
    proof { assert(self.queue@ =~= old(self).queue@.skip(it.index@ + 1)); }
//@afterloop 0
    proof {
        assert(self.queue@ == old(self).queue@.skip(old(self).next_non_whitespace as int));
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), old(self).next_non_whitespace + i) by { }
        assert(self.queue@[0] == old(self).queue@[old(self).next_non_whitespace as int]);
    }
    let ghost mid = *self;
//@beforeloop 0
    proof { assert(self.queue@ =~= old(self).queue@.skip(0)); }
//@endfn
//@fn TokenQueue::next_any_token
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), 0) && t == old(self).queue@[0].0 && allowed(*old(self), t.0)
//@endfn
//@fn TokenQueue::next_any_token_keeping_name
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), 0) && t == old(self).queue@[0] && item(final(self).cmd_names, t) == at(*old(self), 0) && queued_ok(final(self).stores, final(self).cmd_names, t) && allowed(*old(self), t.0.0)
//@afterlet ret
    proof { lemma_unresolved(self.stores, self.cmd_names, ret); }
//@endfn
//@fn TokenQueue::next_any_token_allowing_unknown_command
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(t) ==> taken(*old(self), *final(self), 0) && t == old(self).queue@[0] && item(final(self).cmd_names, t) == at(*old(self), 0) && queued_ok(final(self).stores, final(self).cmd_names, t)
//@beforecall ensure_next_non_whitespace
    let ghost popped = *self;
    proof { assert forall|i: int| 0 <= i implies #[trigger] at(popped, i) == at(*old(self), i + 1) by { } }
//@aftercall ensure_next_non_whitespace
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), 1 + i) by { assert(at(popped, i) == at(*old(self), 1 + i)); }
        lemma_item_grows(self.stores, popped.cmd_names, self.cmd_names, ret);
    }
//@afterif 1
    proof {
        lemma_grows_refl(old(self).cmd_names);
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), 1 + i) by { }
    }
//@endfn
}
/// nothing was taken from the stream, at most more of it was put in the queue
pub open spec fn peeked(o: TokenQueue, f: TokenQueue) -> bool {
    &&& f.good() && f.kept(o) && f.next_non_whitespace == o.next_non_whitespace && f.queue@.len() >= o.queue@.len()
    &&& forall|i: int| 0 <= i < o.queue@.len() ==> #[trigger] f.queue@[i] == o.queue@[i]
    &&& forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, i)
}
pub open spec fn as_queued<'a, X: Into<QueuedTok<'a>>>(x: X) -> QueuedTok<'a> { vstd::std_specs::convert::IntoSpec::into_spec(x) }
/// `n` is the first token after `k` that is no blank
pub open spec fn solid_after(q: Seq<QueuedTok>, k: int, n: int) -> bool { k < n < q.len() && !blank_tok(q[n]) && forall|i: int| k < i < n ==> blank_tok(#[trigger] q[i]) }
/// `n` is the first token after `k` that has a class
pub open spec fn class_after(q: Seq<QueuedTok>, k: int, n: int) -> bool { k < n < q.len() && class_of(q[n].0.0) is Some && forall|i: int| k < i < n ==> class_of((#[trigger] q[i]).0.0) is None }
/// `p` says nothing of the tokens between `k` and `n` and says `x` of token `n`
pub open spec fn hit<T, P: Fn(usize, &Token) -> Option<T>>(p: P, q: Seq<QueuedTok>, k: int, n: int, x: Option<T>) -> bool {
    k < n < q.len() && call_ensures(p, (n as usize, &q[n].0.0), x) && forall|i: int| k < i < n ==> call_ensures(p, (i as usize, &(#[trigger] q[i]).0.0), None::<T>)
}
proof fn lemma_hit_solid(q: Seq<QueuedTok>, k: int, n: int, x: Option<usize>)
    requires hit(is_not_whitespace, q, k, n, x), 0 <= k, q.len() <= isize::MAX, x is Some
    ensures solid_after(q, k, n), x == Some(n as usize)
{
    assert(call_ensures(is_not_whitespace, (n as usize, &q[n].0.0), x));
    assert(x == (if q[n].0.0 is Whitespace { None } else { Some(n as usize) }));
    assert forall|i: int| k < i < n implies blank_tok(#[trigger] q[i]) by { assert(call_ensures(is_not_whitespace, (i as usize, &q[i].0.0), None::<usize>)); }
}
proof fn lemma_hit_class(q: Seq<QueuedTok>, k: int, n: int, x: Option<(usize, Class)>)
    requires hit(has_class, q, k, n, x), 0 <= k, q.len() <= isize::MAX, x is Some
    ensures class_after(q, k, n), (x->0).0 == n, Some((x->0).1) == class_of(q[n].0.0)
{
    assert forall|i: int| k < i < n implies class_of((#[trigger] q[i]).0.0) is None by { assert(call_ensures(has_class, (i as usize, &q[i].0.0), None::<(usize, Class)>)); }
}
/// the queue got the tokens `ts` at its front
pub open spec fn put(o: TokenQueue, f: TokenQueue, ts: Seq<Item>) -> bool {
    &&& f.good() && f.kept(o) && f.lexer == o.lexer && f.queue@.len() == o.queue@.len() + ts.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] at(f, i) == ts[i]
    &&& forall|i: int| 0 <= i ==> #[trigger] at(f, ts.len() + i) == at(o, i)
}
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::find_or_load_after_next
//@sig fn find_or_load_after_next<T, P: Fn(usize, &Token) -> Option<T>>(&mut self, predicate: P) -> (r: Result<Option<T>, Box<LatexError>>)
//@spec
    requires old(self).good(), forall|i: usize, t: Token| #[trigger] call_requires(predicate, (i, &t)),
        forall|i: usize, t: Token, r: Option<T>| #[trigger] call_ensures(predicate, (i, &t), r) && t is Eoi ==> r is Some
    ensures r matches Ok(x) ==> x is Some && peeked(*old(self), *final(self))
        && exists|n: int| #[trigger] hit(predicate, final(self).queue@, old(self).next_non_whitespace as int, n, x)
//@start
    proof {  lemma_grows_refl(self.cmd_names); }
//@loop 0
    invariant_except_break
        vx_found is None, vx_it.i == start + 1 + vx_idx,
        forall|k: int| start < k < vx_it.i ==> call_ensures(predicate, (k as usize, &(#[trigger] self.queue@[k]).0.0), None::<T>)
    invariant
        vx_it.q == self.queue, *self == *old(self), start < self.queue@.len() <= isize::MAX, start == self.next_non_whitespace, vx_it.i <= self.queue@.len(),
        forall|i: usize, t: Token| #[trigger] call_requires(predicate, (i, &t))
    ensures
        vx_found is Some ==> exists|n: int| #[trigger] hit(predicate, self.queue@, start as int, n, vx_found),
        vx_found is None ==> forall|k: int| start < k < self.queue@.len() ==> call_ensures(predicate, (k as usize, &(#[trigger] self.queue@[k]).0.0), None::<T>)
    decreases self.queue@.len() - vx_it.i
//@loopstart 0
    proof {
        let n = vx_it.i - 1;
        assert forall|x: Option<T>| #[trigger] call_ensures(predicate, (n as usize, &ts.0.0), x) implies hit(predicate, self.queue@, start as int, n, x) by { }
    }
//@end
    proof {
        if result is None && vx_ret is Ok {
            let n = self.queue@.len() - 1;
            let q = self.queue@;
            assert forall|k: int| old(self).next_non_whitespace < k < n implies call_ensures(predicate, (k as usize, &(#[trigger] self.queue@[k]).0.0), None::<T>) by {
                if k < old(self).queue@.len() { assert(self.queue@[k] == old(self).queue@[k]); }
            }
            assert(q[n] == q.last());
            assert(hit(predicate, q, old(self).next_non_whitespace as int, n, vx_ret->Ok_0));
        }
    }
//@endfn
//@fn TokenQueue::peek_second
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(x) ==> peeked(*old(self), *final(self)) && exists|n: int| solid_after(final(self).queue@, old(self).next_non_whitespace as int, n) && *x == (#[trigger] final(self).queue@[n]).0
//@start
    proof {
        assert forall|q: Seq<QueuedTok>, k: int, n: int, x: Option<usize>| #[trigger] hit(is_not_whitespace, q, k, n, x) && 0 <= k && q.len() <= isize::MAX && x is Some implies solid_after(q, k, n) && x == Some(n as usize) by { lemma_hit_solid(q, k, n, x); }
    }
//@endfn
//@fn TokenQueue::peek_class_token
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(x) ==> peeked(*old(self), *final(self)) && x.0 < final(self).queue@.len() && class_of(final(self).queue@[x.0 as int].0.0) == Some(x.1)
        && (x.0 == old(self).next_non_whitespace || (class_of(old(self).queue@[old(self).next_non_whitespace as int].0.0) is None && class_after(final(self).queue@, old(self).next_non_whitespace as int, x.0 as int)))
//@start
    proof {
        lemma_grows_refl(self.cmd_names);
        assert forall|q: Seq<QueuedTok>, k: int, n: int, x: Option<(usize, Class)>| #[trigger] hit(has_class, q, k, n, x) && 0 <= k && q.len() <= isize::MAX && x is Some implies class_after(q, k, n) && (x->0).0 == n && Some((x->0).1) == class_of(q[n].0.0) by { lemma_hit_class(q, k, n, x); }
    }
//@endfn
//@fn TokenQueue::update_next_non_whitespace
//@spec
    requires old(self).base(), exists|i: int| 0 <= i < old(self).queue@.len() && !blank_tok(#[trigger] old(self).queue@[i])
    ensures final(self).good(), final(self).stores == old(self).stores, final(self).cmd_names == old(self).cmd_names, final(self).lexer == old(self).lexer, final(self).queue == old(self).queue,
        forall|i: int| 0 <= i ==> #[trigger] at(*final(self), i) == at(*old(self), i)
//@endfn
//@fn TokenQueue::queue_in_front
//@sig pub fn queue_in_front<X: Into<QueuedTok<'arena>> + Copy>(&mut self, tokens: &[X]) -> (r: ())
//@spec
    requires old(self).good(), <X as vstd::std_specs::convert::IntoSpec<QueuedTok<'arena>>>::obeys_into_spec(), forall|i: int| 0 <= i < tokens@.len() ==> queued_ok(old(self).stores, old(self).cmd_names, as_queued(#[trigger] tokens@[i]))
    ensures put(*old(self), *final(self), tokens@.map_values(|x: X| item(old(self).cmd_names, as_queued(x))))
//@loop 0
    invariant
        vx_k0 <= tokens@.len(), <X as vstd::std_specs::convert::IntoSpec<QueuedTok<'arena>>>::obeys_into_spec(),
        self.queue@ == Seq::new((tokens@.len() - vx_k0) as nat, |i: int| as_queued(tokens@[vx_k0 + i])) + old(self).queue@,
        self.stores == old(self).stores, self.cmd_names == old(self).cmd_names, self.lexer == old(self).lexer, self.lexer_is_eoi == old(self).lexer_is_eoi
    decreases vx_k0
//@beforeloop 0
    proof { assert(self.queue@ =~= Seq::new(0, |i: int| as_queued(tokens@[tokens@.len() + i])) + old(self).queue@); }
//@loopstart 0
    let ghost a = self.queue@;
//@loopend 0
    proof { assert(self.queue@ =~= seq![as_queued(tokens@[vx_k0 as int])] + a); assert(self.queue@ =~= Seq::new((tokens@.len() - vx_k0) as nat, |i: int| as_queued(tokens@[vx_k0 + i])) + old(self).queue@); }
//@afterloop 0
    let ghost mid = *self;
    proof {
        lemma_grows_refl(self.cmd_names);
        let n = tokens@.len() as int;
        let k = n + old(self).next_non_whitespace;
        assert(self.queue@[k] == old(self).queue@[old(self).next_non_whitespace as int]);
        assert forall|i: int| 0 <= i < self.queue@.len() implies queued_ok(self.stores, self.cmd_names, #[trigger] self.queue@[i]) by {
            if i < n { assert(self.queue@[i] == as_queued(tokens@[i])); } else { assert(self.queue@[i] == old(self).queue@[i - n]); }
        }
    }
//@end
    proof {
        let n = tokens@.len() as int;
        assert forall|i: int| 0 <= i < n implies #[trigger] at(*self, i) == item(old(self).cmd_names, as_queued(tokens@[i])) by { assert(at(*self, i) == at(mid, i)); }
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, n + i) == at(*old(self), i) by { assert(at(*self, n + i) == at(mid, n + i)); }
    }
//@endfn
//@fn TokenQueue::get_token_by_index
//@ret r
//@spec
    ensures match r { Some(x) => idx < self.queue@.len() && *x == self.queue@[idx as int].0, None => idx >= self.queue@.len() }
//@endfn
}

// ---- arguments and expansion ---------------------------------------------------------------------
//@file crates/math-core/src/token_queue.rs
//@extract struct CmdArgs
/// the tokens of argument `n`
pub open spec fn arg_of<'a>(a: CmdArgs<'a>, n: u8) -> Seq<QueuedTok<'a>> {
    let lo = if 1 <= n <= 9 { a.offsets@[n - 1] as int } else { 0 };
    let hi = if n < 9 { a.offsets@[n as int] as int } else { a.tokens@.len() as int };
    if lo <= hi <= a.tokens@.len() { a.tokens@.subrange(lo, hi) } else { seq![] }
}
impl<'source> CmdArgs<'source> {
    /// the first `n` arguments have been read
    pub open spec fn read(self, n: int) -> bool {
        0 <= n <= 9 && forall|i: int, j: int| 0 <= i <= j < n ==> #[trigger] self.offsets@[i] <= #[trigger] self.offsets@[j] <= self.tokens@.len()
    }
//@fn CmdArgs::get
//@ret r
//@subst self.offsets.get ==> self.offsets.as_slice().get
//@spec
    ensures r@ == arg_of(*self, arg_num)
//@endfn
//@fn CmdArgs::clear
//@spec
    ensures final(self).tokens@.len() == 0, final(self).offsets@ =~= Seq::new(9, |i: int| 0usize), final(self).read(0)
//@endfn
//@fn CmdArgs::push
//@spec
    ensures final(self).tokens@ == old(self).tokens@.push(queued), final(self).offsets == old(self).offsets
//@endfn
//@fn CmdArgs::finish_arg
//@subst if let Some(offset) = self.offsets.get_mut(arg_num as usize) { *offset = self.tokens.len(); } ==> if (arg_num as usize) < 9 { self.offsets[arg_num as usize] = self.tokens.len(); }
//@spec
    ensures final(self).tokens == old(self).tokens, arg_num < 9 ==> final(self).offsets@ == old(self).offsets@.update(arg_num as int, old(self).tokens@.len() as usize)
//@endfn
//@fn CmdArgs::buffer
//@ret r
//@spec
    ensures r@ == old(self).tokens@, final(self).tokens@ == final(r)@, final(self).offsets == old(self).offsets
//@endfn
}
pub open spec fn items(p: StringPool, q: Seq<QueuedTok>) -> Seq<Item> { Seq::new(q.len(), |i: int| item(p, q[i])) }
pub open spec fn plain(t: Token) -> Item { Item { v: V::Tok(t), span: Span { start: 0, end: 0 }, name: None } }
/// what stands for an argument: its tokens, or `{}` if it has none
pub open spec fn arg_items(p: StringPool, arg: Seq<QueuedTok>, span: Span) -> Seq<Item> {
    if arg.len() == 0 { seq![Item { v: V::Tok(Token::GroupBegin), span, name: None }, Item { v: V::Tok(Token::GroupEnd), span, name: None }] } else { items(p, arg) }
}
/// what one token of a body stands for: an argument, a token, or whatever a name means when the command is used
pub open spec fn recorded(st: Stores, p: StringPool, a: CmdArgs, span: Span, r: RecordedToken) -> Seq<Item> {
    match r {
        RecordedToken::Token(Token::CustomCmdArg(n)) => arg_items(p, arg_of(a, n), span),
        RecordedToken::Token(t) => seq![plain(t)],
        RecordedToken::CommandName(n) => match resolve(st, n@) { Some(t) => seq![plain(t)], None => seq![Item { v: V::Name(n@), span, name: None }] },
    }
}
/// the body with its arguments put in
pub open spec fn expand(st: Stores, p: StringPool, a: CmdArgs, span: Span, body: Seq<RecordedToken>) -> Seq<Item>
    decreases body.len()
{ if body.len() == 0 { seq![] } else { recorded(st, p, a, span, body[0]) + expand(st, p, a, span, body.skip(1)) } }
/// what a command with this body stands for
pub open spec fn expansion(st: Stores, p: StringPool, a: CmdArgs, span: Span, body: Seq<RecordedToken>) -> Seq<Item> {
    if body.len() == 0 { seq![Item { v: V::Tok(Token::Relax), span, name: None }] } else { expand(st, p, a, span, body) }
}
pub open spec fn too_long(tq: TokenQueue, a: CmdArgs, span: Span, body: Seq<RecordedToken>) -> bool {
    body.len() > 0 && tq.queue@.len() + expand(tq.stores, tq.cmd_names, a, span, body.skip(1)).len() > MAX_QUEUED_TOKENS
}
pub open spec fn wrapped(ts: Seq<Token>) -> Seq<RecordedToken> { ts.map_values(|t: Token| RecordedToken::Token(t)) }
proof fn lemma_expand_len(st: Stores, p: StringPool, a: CmdArgs, span: Span, body: Seq<RecordedToken>, i: int, j: int)
    requires 0 <= i <= j <= body.len()
    ensures expand(st, p, a, span, body.skip(j)).len() <= expand(st, p, a, span, body.skip(i)).len()
    decreases j - i
{
    if i < j {
        lemma_expand_len(st, p, a, span, body, i + 1, j);
        assert(body.skip(i).skip(1) =~= body.skip(i + 1));
    }
}
proof fn lemma_items_grow(st: Stores, a: StringPool, b: StringPool, q: Seq<QueuedTok>)
    requires grows(a, b), all_ok(st, a, q)
    ensures items(b, q) == items(a, q)
{ lemma_all_grows(st, a, b, q); assert(items(b, q) =~= items(a, q)); }
/// from the row of items to the stream
proof fn lemma_put(o: TokenQueue, f: TokenQueue, ts: Seq<Item>)
    requires f.good(), f.kept(o), f.lexer == o.lexer, items(f.cmd_names, f.queue@) == ts + items(o.cmd_names, o.queue@)
    ensures put(o, f, ts)
{
    let n = ts.len() as int;
    assert(items(f.cmd_names, f.queue@).len() == f.queue@.len());
    assert forall|i: int| 0 <= i < n implies #[trigger] at(f, i) == ts[i] by { assert(items(f.cmd_names, f.queue@)[i] == ts[i]); }
    assert forall|i: int| 0 <= i implies #[trigger] at(f, n + i) == at(o, i) by {
        if i < o.queue@.len() { assert(items(f.cmd_names, f.queue@)[n + i] == items(o.cmd_names, o.queue@)[i]); }
    }
}
//@fn check_queue_len
//@ret r
//@spec
    ensures r is Err <==> queue@.len() > MAX_QUEUED_TOKENS
//@endfn
//@fn push_arg_front
//@spec
    ensures final(queue)@ == (if arg@.len() == 0 { seq![QueuedTok(TokSpan(Token::GroupBegin, span), None), QueuedTok(TokSpan(Token::GroupEnd, span), None)] } else { arg@ }) + old(queue)@
//@loop 0
    invariant vx_k0 <= arg@.len(), queue@ == arg@.skip(vx_k0 as int) + old(queue)@
    decreases vx_k0
//@beforeloop 0
    proof { assert(queue@ =~= arg@.skip(arg@.len() as int) + old(queue)@); }
//@loopend 0
    proof { assert(arg@.skip(vx_k0 as int) =~= seq![arg@[vx_k0 as int]] + arg@.skip(vx_k0 + 1)); assert(queue@ =~= arg@.skip(vx_k0 as int) + old(queue)@); }
//@end
    proof { assert(arg@.skip(0) =~= arg@); if arg@.len() == 0 { assert(queue@ =~= seq![QueuedTok(TokSpan(Token::GroupBegin, span), None), QueuedTok(TokSpan(Token::GroupEnd, span), None)] + old(queue)@); } }
//@endfn
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::queue_empty_body
//@spec
    requires old(self).good()
    ensures put(*old(self), *final(self), seq![Item { v: V::Tok(Token::Relax), span, name: None }])
//@aftercall push_front
    let ghost mid = *self;
    proof {
        axiom_plain_constants(); axiom_constant(Token::Relax); lemma_grows_refl(self.cmd_names);
        assert(!blank_tok(self.queue@[0]));
        assert(items(self.cmd_names, self.queue@) =~= seq![Item { v: V::Tok(Token::Relax), span, name: None }] + items(old(self).cmd_names, old(self).queue@));
    }
//@end
    proof { lemma_put(*old(self), *self, seq![Item { v: V::Tok(Token::Relax), span, name: None }]); }
//@endfn
//@fn TokenQueue::queue_arg_in_front
//@spec
    requires old(self).good(), all_ok(old(self).stores, old(self).cmd_names, arg@)
    ensures put(*old(self), *final(self), arg_items(old(self).cmd_names, arg@, span))
//@aftercall push_arg_front
    proof { lemma_pushed_arg(*old(self), *self, arg@, span); lemma_grows_refl(self.cmd_names); lemma_nonblank(*old(self), self.cmd_names, self.queue@, arg_items(old(self).cmd_names, arg@, span)); }
//@end
    proof { lemma_put(*old(self), *self, arg_items(old(self).cmd_names, arg@, span)); }
//@endfn
//@fn TokenQueue::queue_stored_body_substituting
//@ret r
//@subst self.stores.resolve_command(name) ==> self.stores.resolve_command(name.vx_str())
//@subst self.cmd_names.intern(name) ==> self.cmd_names.intern(name.vx_str())
//@spec
    requires old(self).good(), all_ok(old(self).stores, old(self).cmd_names, args.tokens@)
    ensures ({
        let store = store_of(old(self).stores, source);
        let body = store.subrange(start as int, end as int);
        match r {
            Ok(b) => b == (start <= end <= store.len()) && (b ==> !too_long(*old(self), *args, span, body) && put(*old(self), *final(self), expansion(old(self).stores, old(self).cmd_names, *args, span, body))),
            Err(_) => start <= end <= store.len() && too_long(*old(self), *args, span, body),
        } })
//@loop 0
    invariant
        vx_k0 <= body@.len(), *args == *args, stores_ok(self.stores), self.stores == old(self).stores, self.lexer == old(self).lexer, self.lexer_is_eoi == old(self).lexer_is_eoi, self.next_non_whitespace == old(self).next_non_whitespace,
        all_ok(self.stores, self.cmd_names, self.queue@), old(self).good(), all_ok(self.stores, self.cmd_names, args.tokens@), all_ok(self.stores, old(self).cmd_names, args.tokens@),
        grows(old(self).cmd_names, self.cmd_names),
        items(self.cmd_names, self.queue@) == expand(self.stores, old(self).cmd_names, *args, span, body@.skip(vx_k0 as int)) + items(old(self).cmd_names, old(self).queue@),
        body@ == store_of(self.stores, source).subrange(start as int, end as int), start <= end <= store_of(self.stores, source).len(),
        vx_k0 < body@.len() ==> old(self).queue@.len() + expand(self.stores, old(self).cmd_names, *args, span, body@.skip(vx_k0 + 1)).len() <= MAX_QUEUED_TOKENS,
    decreases vx_k0
//@beforeloop 0
    proof {
        lemma_grows_refl(self.cmd_names);
        assert(body@.skip(body@.len() as int) =~= seq![]);
        assert(items(self.cmd_names, self.queue@) =~= expand(self.stores, old(self).cmd_names, *args, span, body@.skip(body@.len() as int)) + items(old(self).cmd_names, old(self).queue@));
    }
//@loopstart 0
    let ghost b = *self;
    proof { lemma_grows_refl(self.cmd_names); lemma_expand_len(self.stores, old(self).cmd_names, *args, span, body@, 1, vx_k0 as int); assert(items(self.cmd_names, self.queue@).len() == self.queue@.len()); }
//@loopend 0
    proof {
        let k = vx_k0 as int;
        let pre = self.queue@.take(self.queue@.len() - b.queue@.len());
        lemma_recorded(self.stores, old(self).cmd_names, b.cmd_names, self.cmd_names, *args, span, body@[k], pre);
        assert(self.queue@ =~= pre + b.queue@);
        lemma_step(*old(self), b.cmd_names, self.cmd_names, b.queue@, self.queue@, pre, *args, span, body@, k);
        lemma_all_grows(self.stores, b.cmd_names, self.cmd_names, args.tokens@);
    }
//@afterloop 0
    proof { assert(body@.skip(0) =~= body@); lemma_nonblank(*old(self), self.cmd_names, self.queue@, expand(self.stores, old(self).cmd_names, *args, span, body@)); }
//@end
    proof { lemma_put(*old(self), *self, expand(self.stores, old(self).cmd_names, *args, span, body@)); }
//@endfn
//@fn TokenQueue::queue_body_substituting
//@ret r
//@spec
    requires old(self).good(), all_ok(old(self).stores, old(self).cmd_names, args.tokens@), forall|i: int| 0 <= i < tokens@.len() ==> constant(#[trigger] tokens@[i]) || tokens@[i] is CustomCmdArg
    ensures ({
        let body = wrapped(tokens@);
        match r {
            Ok(_) => !too_long(*old(self), *args, span, body) && put(*old(self), *final(self), expansion(old(self).stores, old(self).cmd_names, *args, span, body)),
            Err(_) => too_long(*old(self), *args, span, body),
        } })
//@loop 0
    invariant
        vx_k0 <= wrapped(tokens@).len(), *args == *args, stores_ok(self.stores), self.stores == old(self).stores, self.lexer == old(self).lexer, self.lexer_is_eoi == old(self).lexer_is_eoi, self.next_non_whitespace == old(self).next_non_whitespace,
        all_ok(self.stores, self.cmd_names, self.queue@), old(self).good(), all_ok(self.stores, self.cmd_names, args.tokens@), all_ok(self.stores, old(self).cmd_names, args.tokens@),
        grows(old(self).cmd_names, self.cmd_names),
        items(self.cmd_names, self.queue@) == expand(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@).skip(vx_k0 as int)) + items(old(self).cmd_names, old(self).queue@),
        forall|i: int| 0 <= i < tokens@.len() ==> constant(#[trigger] tokens@[i]) || tokens@[i] is CustomCmdArg,
        vx_k0 < wrapped(tokens@).len() ==> old(self).queue@.len() + expand(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@).skip(vx_k0 + 1)).len() <= MAX_QUEUED_TOKENS,
    decreases vx_k0
//@beforeloop 0
    proof {
        lemma_grows_refl(self.cmd_names);
        assert(wrapped(tokens@).skip(wrapped(tokens@).len() as int) =~= seq![]);
        assert(items(self.cmd_names, self.queue@) =~= expand(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@).skip(wrapped(tokens@).len() as int)) + items(old(self).cmd_names, old(self).queue@));
    }
//@loopstart 0
    let ghost b = *self;
    proof { lemma_grows_refl(self.cmd_names); lemma_expand_len(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@), 1, vx_k0 as int); assert(items(self.cmd_names, self.queue@).len() == self.queue@.len()); }
//@loopend 0
    proof {
        let k = vx_k0 as int;
        let pre = self.queue@.take(self.queue@.len() - b.queue@.len());
        lemma_recorded(self.stores, old(self).cmd_names, b.cmd_names, self.cmd_names, *args, span, wrapped(tokens@)[k], pre);
        assert(self.queue@ =~= pre + b.queue@);
        lemma_step(*old(self), b.cmd_names, self.cmd_names, b.queue@, self.queue@, pre, *args, span, wrapped(tokens@), k);
        lemma_all_grows(self.stores, b.cmd_names, self.cmd_names, args.tokens@);
    }
//@afterloop 0
    proof { assert(wrapped(tokens@).skip(0) =~= wrapped(tokens@)); lemma_nonblank(*old(self), self.cmd_names, self.queue@, expand(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@))); }
//@end
    proof { lemma_put(*old(self), *self, expand(self.stores, old(self).cmd_names, *args, span, wrapped(tokens@))); }
//@endfn
}
proof fn lemma_nonblank(o: TokenQueue, p: StringPool, q: Seq<QueuedTok>, e: Seq<Item>)
    requires o.good(), items(p, q) == e + items(o.cmd_names, o.queue@)
    ensures exists|i: int| 0 <= i < q.len() && !blank_tok(#[trigger] q[i])
{
    let n = o.next_non_whitespace as int;
    assert(items(p, q).len() == q.len());
    assert(items(p, q)[e.len() + n] == items(o.cmd_names, o.queue@)[n]);
    assert(!blank_tok(q[e.len() + n]));
}
/// one token of the body went in front
proof fn lemma_step(o: TokenQueue, p0: StringPool, p1: StringPool, q0: Seq<QueuedTok>, q1: Seq<QueuedTok>, pre: Seq<QueuedTok>, a: CmdArgs, span: Span, body: Seq<RecordedToken>, k: int)
    requires 0 <= k < body.len(), grows(o.cmd_names, p0), grows(p0, p1), q1 == pre + q0, all_ok(o.stores, p0, q0), all_ok(o.stores, p1, pre),
        items(p0, q0) == expand(o.stores, o.cmd_names, a, span, body.skip(k + 1)) + items(o.cmd_names, o.queue@), items(p1, pre) == recorded(o.stores, o.cmd_names, a, span, body[k])
    ensures all_ok(o.stores, p1, q1), items(p1, q1) == expand(o.stores, o.cmd_names, a, span, body.skip(k)) + items(o.cmd_names, o.queue@), grows(o.cmd_names, p1)
{
    lemma_grows_trans(o.cmd_names, p0, p1);
    lemma_all_grows(o.stores, p0, p1, q0);
    lemma_items_grow(o.stores, p0, p1, q0);
    assert forall|i: int| 0 <= i < q1.len() implies queued_ok(o.stores, p1, #[trigger] q1[i]) by {
        if i < pre.len() { assert(q1[i] == pre[i]); } else { assert(q1[i] == q0[i - pre.len()]); }
    }
    assert(items(p1, q1) =~= items(p1, pre) + items(p1, q0));
    assert(body.skip(k).skip(1) =~= body.skip(k + 1));
    assert(body.skip(k)[0] == body[k]);
    assert(items(p1, q1) =~= expand(o.stores, o.cmd_names, a, span, body.skip(k)) + items(o.cmd_names, o.queue@));
}
/// the tokens `pre` are what body token `r` stands for
proof fn lemma_recorded(st: Stores, p: StringPool, p0: StringPool, p1: StringPool, a: CmdArgs, span: Span, r: RecordedToken, pre: Seq<QueuedTok>)
    requires grows(p, p0), grows(p0, p1), stores_ok(st), stored_ok(st, r), all_ok(st, p, a.tokens@), match r {
        RecordedToken::Token(Token::CustomCmdArg(n)) => {
            let arg = arg_of(a, n);
            pre =~= (if arg.len() == 0 { seq![QueuedTok(TokSpan(Token::GroupBegin, span), None), QueuedTok(TokSpan(Token::GroupEnd, span), None)] } else { arg })
        }
        RecordedToken::Token(t) => pre =~= seq![QueuedTok(TokSpan(t, Span { start: 0, end: 0 }), None)],
        RecordedToken::CommandName(n) => match resolve(st, n@) {
            Some(t) => pre =~= seq![QueuedTok(TokSpan(t, Span { start: 0, end: 0 }), None)],
            None => exists|h: InternedStr| #[trigger] stands(p1, h, n@) && pre =~= seq![QueuedTok(TokSpan(Token::UnresolvedCommand(h), span), None)],
        } }
    ensures all_ok(st, p1, pre), items(p1, pre) == recorded(st, p, a, span, r)
{
    lemma_grows_trans(p, p0, p1);
    axiom_plain_constants(); axiom_constant(Token::GroupBegin); axiom_constant(Token::GroupEnd);
    match r {
        RecordedToken::Token(Token::CustomCmdArg(n)) => {
            let arg = arg_of(a, n);
            if arg.len() > 0 {
                assert(all_ok(st, p, arg)) by { assert forall|i: int| 0 <= i < arg.len() implies queued_ok(st, p, #[trigger] arg[i]) by { lemma_arg_in(a, n, i); } }
                lemma_items_grow(st, p, p1, arg);
                lemma_all_grows(st, p, p1, arg);
            }
        }
        RecordedToken::Token(t) => { if constant(t) { axiom_constant(t); } }
        RecordedToken::CommandName(n) => {
            lemma_meaning_ok(st, p1, n@);
            if resolve(st, n@) is None {
                let h = choose|h: InternedStr| #[trigger] stands(p1, h, n@) && pre =~= seq![QueuedTok(TokSpan(Token::UnresolvedCommand(h), span), None)];
                lemma_text(p1, h, n@);
            }
        }
    }
    assert(items(p1, pre) =~= recorded(st, p, a, span, r));
}
proof fn lemma_arg_in(a: CmdArgs, n: u8, i: int)
    requires 0 <= i < arg_of(a, n).len()
    ensures exists|k: int| 0 <= k < a.tokens@.len() && arg_of(a, n)[i] == #[trigger] a.tokens@[k]
{
    let lo = if 1 <= n <= 9 { a.offsets@[n - 1] as int } else { 0 };
    assert(arg_of(a, n)[i] == a.tokens@[lo + i]);
}
proof fn lemma_pushed_arg(o: TokenQueue, f: TokenQueue, arg: Seq<QueuedTok>, span: Span)
    requires f.stores == o.stores, f.cmd_names == o.cmd_names, stores_ok(o.stores), all_ok(o.stores, o.cmd_names, o.queue@), all_ok(o.stores, o.cmd_names, arg),
        f.queue@ == (if arg.len() == 0 { seq![QueuedTok(TokSpan(Token::GroupBegin, span), None), QueuedTok(TokSpan(Token::GroupEnd, span), None)] } else { arg }) + o.queue@
    ensures all_ok(f.stores, f.cmd_names, f.queue@), items(f.cmd_names, f.queue@) == arg_items(o.cmd_names, arg, span) + items(o.cmd_names, o.queue@)
{
    axiom_plain_constants(); axiom_constant(Token::GroupBegin); axiom_constant(Token::GroupEnd);
    let pre = if arg.len() == 0 { seq![QueuedTok(TokSpan(Token::GroupBegin, span), None), QueuedTok(TokSpan(Token::GroupEnd, span), None)] } else { arg };
    assert forall|i: int| 0 <= i < f.queue@.len() implies queued_ok(f.stores, f.cmd_names, #[trigger] f.queue@[i]) by {
        if i < pre.len() { assert(f.queue@[i] == pre[i]); } else { assert(f.queue@[i] == o.queue@[i - pre.len()]); }
    }
    assert(items(f.cmd_names, f.queue@) =~= arg_items(o.cmd_names, arg, span) + items(o.cmd_names, o.queue@));
}

// ---- definitions ---------------------------------------------------------------------------------
/// `name` was given a body, in the store that is kept or in the one of the snippet; nothing else changed
pub open spec fn defined(a: Stores, b: Stores, name: Seq<char>, num_args: u8, class: Option<Class>, body: Seq<RecordedToken>, kept: bool) -> bool {
    &&& b.parser_cfg == a.parser_cfg && b.global_state.equation_count == a.global_state.equation_count && b.global_state.label_map == a.global_state.label_map
    &&& kept ==> kept_document(a.global_state.custom_cmds, b.global_state.custom_cmds, a.local_cmds, name, num_args, class, body)
            && b.local_cmds.tokens == a.local_cmds.tokens && b.local_cmds.map@ == a.local_cmds.map@.remove(name)
    &&& !kept ==> b.global_state.custom_cmds == a.global_state.custom_cmds && b.local_cmds.tokens@ == a.local_cmds.tokens@ + body && b.local_cmds.tokens@.len() <= usize::MAX
            && b.local_cmds.map@ == a.local_cmds.map@.insert(name, CmdDef { num_args, class, start: a.local_cmds.tokens@.len() as usize, end: b.local_cmds.tokens@.len() as usize })
}
/// a body that may be stored
pub open spec fn body_ok(st: Stores, body: Seq<RecordedToken>) -> bool {
    forall|k: int| 0 <= k < body.len() ==> stored_ok(st, #[trigger] body[k]) && backwards(body[k], st.local_cmds.tokens@.len() as int)
}
pub open spec fn new_source(kept: bool) -> CmdSource { if kept { CmdSource::Document } else { CmdSource::Local } }
/// where the new body lies
pub open spec fn new_range(a: Stores, kept: bool, n: nat) -> (int, int) { let lo = store_of(a, new_source(kept)).len() as int; (lo, lo + n) }
/// after a definition: the name means it, other names mean what they did
proof fn lemma_defined(a: Stores, b: Stores, name: Seq<char>, num_args: u8, class: Option<Class>, body: Seq<RecordedToken>, kept: bool)
    requires stores_ok(a), body_ok(a, body), defined(a, b, name, num_args, class, body, kept)
    ensures stores_ok(b), forall|n: Seq<char>| n != name ==> #[trigger] resolve(b, n) == resolve(a, n),
        ({ let (lo, hi) = new_range(a, kept, body.len()); resolve(b, name) == Some(Token::CustomCmdRef(new_source(kept), num_args, class, lo as usize, hi as usize)) && lo <= hi <= usize::MAX }),
        forall|t: Token| #[trigger] tok_ok(a, t) ==> tok_ok(b, t)
{
    assert forall|t: Token| #[trigger] ref_ok(a, t) implies ref_ok(b, t) by { }
    let l = a.local_cmds.tokens@;
    if kept {
        let da = a.global_state.custom_cmds.tokens@;
        let db = b.global_state.custom_cmds.tokens@;
        let lo = da.len() as int;
        let hi = lo + body.len();
        let orig = choose|orig: Seq<RecordedToken>| #[trigger] absorbed(l, orig, db, lo) && orig.take(hi) == da + body
            && (forall|k: int| lo <= k < orig.len() ==> backwards(#[trigger] orig[k], l.len() as int))
            && forall|k: int| hi <= k < orig.len() ==> from_local(l, #[trigger] orig[k]);
        assert forall|i: int| 0 <= i < db.len() implies stored_ok(b, #[trigger] db[i]) && !local_ref(db[i]) by {
            if i < lo { assert(db[i] == db.take(lo)[i]); assert(stored_ok(a, da[i])); }
            else {
                assert(copied(l, orig[i], orig, db[i], lo));
                if i < hi { assert(orig[i] == orig.take(hi)[i]); assert(orig[i] == body[i - lo]); assert(stored_ok(a, body[i - lo])); }
                else { let j = choose|j: int| 0 <= j < l.len() && #[trigger] l[j] == orig[i]; assert(stored_ok(a, l[j])); }
                if let RecordedToken::Token(t) = orig[i] { if constant(t) { axiom_constant(t); } }
            }
        }
        assert forall|i: int| 0 <= i < b.local_cmds.tokens@.len() implies stored_ok(b, #[trigger] b.local_cmds.tokens@[i]) by { assert(stored_ok(a, l[i])); }
    } else {
        assert forall|i: int| 0 <= i < b.local_cmds.tokens@.len() implies stored_ok(b, #[trigger] b.local_cmds.tokens@[i]) && backwards(b.local_cmds.tokens@[i], i) by {
            if i < l.len() { assert(stored_ok(a, l[i]) && backwards(l[i], i)); } else { assert(stored_ok(a, body[i - l.len()])); }
        }
        assert forall|i: int| 0 <= i < b.global_state.custom_cmds.tokens@.len() implies stored_ok(b, #[trigger] b.global_state.custom_cmds.tokens@[i]) by { assert(stored_ok(a, a.global_state.custom_cmds.tokens@[i])); }
    }
    assert forall|i: int| 0 <= i < b.parser_cfg.custom_cmds_from_cfg.tokens@.len() implies stored_ok(b, #[trigger] b.parser_cfg.custom_cmds_from_cfg.tokens@[i]) by { assert(stored_ok(a, a.parser_cfg.custom_cmds_from_cfg.tokens@[i])); }
}
/// a token of the stream after a definition: names have the meaning they have now
pub open spec fn updated(st: Stores, it: Item) -> Item {
    match it.name { Some(n) => Item { v: meaning(st, n), span: it.span, name: it.name }, None => match it.v { V::Name(n) => Item { v: meaning(st, n), span: it.span, name: None }, V::Tok(_) => it } }
}
/// the unresolved tokens of `a` looked up again
pub open spec fn relooked(st: Stores, p: StringPool, a: QueuedTok) -> Token {
    match a.0.0 { Token::UnresolvedCommand(h) => match resolve(st, text(p, h)) { Some(t) => t, None => a.0.0 }, t => t }
}
pub open spec fn valid_tok(p: StringPool, q: QueuedTok) -> bool { q.0.0 matches Token::UnresolvedCommand(h) ==> valid(p, h) }
pub open spec fn renamed(replace: bool, name: Seq<char>, tok: Token, q: QueuedTok) -> QueuedTok {
    if replace && vname(q.1) == Some(name) { QueuedTok(TokSpan(tok, q.0.1), q.1) } else { q }
}
proof fn lemma_updated(a: Stores, b: Stores, p: StringPool, name: Seq<char>, replace: bool, q: QueuedTok, q2: QueuedTok)
    requires stores_ok(a), stores_ok(b), queued_ok(a, p, q), forall|n: Seq<char>| n != name ==> #[trigger] resolve(b, n) == resolve(a, n),
        resolve(b, name) is Some, resolve(b, name)->0 is CustomCmdRef, !replace ==> resolve(a, name) is None, forall|t: Token| #[trigger] tok_ok(a, t) ==> tok_ok(b, t),
        ({ let r = renamed(replace, name, resolve(b, name)->0, q); q2 == QueuedTok(TokSpan(relooked(b, p, r), q.0.1), q.1) })
    ensures queued_ok(b, p, q2), item(p, q2) == updated(b, item(p, q)), blank_tok(q2) == blank_tok(q)
{
    let r = renamed(replace, name, resolve(b, name)->0, q);
    if let Some(n) = q.1 { lemma_meaning_ok(a, p, n@); lemma_meaning_ok(b, p, n@); axiom_builtin(*a.parser_cfg, n@); }
    if let Token::UnresolvedCommand(h) = q.0.0 { if constant(q.0.0) { axiom_constant(q.0.0); } lemma_meaning_ok(b, p, text(p, h)); axiom_builtin(*b.parser_cfg, text(p, h)); }
    lemma_meaning_ok(b, p, name);
}
#[verifier::external_body]
pub fn vx_is_name(a: Option<&str>, b: &str) -> (r: bool) ensures r == (vname(a) == Some(b@)) { a == Some(b) }
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::resolve_buffered_unknown_commands
//@spec
    requires forall|i: int| 0 <= i < old(self).queue@.len() ==> valid_tok(old(self).cmd_names, #[trigger] old(self).queue@[i])
    ensures final(self).stores == old(self).stores, final(self).cmd_names == old(self).cmd_names, final(self).lexer == old(self).lexer, final(self).lexer_is_eoi == old(self).lexer_is_eoi, final(self).next_non_whitespace == old(self).next_non_whitespace,
        final(self).queue@.len() == old(self).queue@.len(),
        forall|i: int| 0 <= i < old(self).queue@.len() ==> (#[trigger] final(self).queue@[i]) == QueuedTok(TokSpan(relooked(old(self).stores, old(self).cmd_names, old(self).queue@[i]), old(self).queue@[i].0.1), old(self).queue@[i].1)
//@loop 0
    invariant
        self.stores == old(self).stores, self.cmd_names == old(self).cmd_names, self.lexer == old(self).lexer, self.lexer_is_eoi == old(self).lexer_is_eoi, self.next_non_whitespace == old(self).next_non_whitespace,
        self.queue@.len() == old(self).queue@.len(), vx_k0 <= self.queue@.len(),
        forall|i: int| 0 <= i < old(self).queue@.len() ==> valid_tok(old(self).cmd_names, #[trigger] old(self).queue@[i]),
        forall|i: int| vx_k0 <= i < self.queue@.len() ==> #[trigger] self.queue@[i] == old(self).queue@[i],
        forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] self.queue@[i]) == QueuedTok(TokSpan(relooked(old(self).stores, old(self).cmd_names, old(self).queue@[i]), old(self).queue@[i].0.1), old(self).queue@[i].1),
    decreases self.queue@.len() - vx_k0
//@endfn
//@fn TokenQueue::resolve_buffered_redefined_command
//@subst queued.name() == Some(name) ==> vx_is_name(queued.name(), name)
//@spec
    ensures final(self).stores == old(self).stores, final(self).cmd_names == old(self).cmd_names, final(self).lexer == old(self).lexer, final(self).lexer_is_eoi == old(self).lexer_is_eoi, final(self).next_non_whitespace == old(self).next_non_whitespace,
        final(self).queue@.len() == old(self).queue@.len(),
        forall|i: int| 0 <= i < old(self).queue@.len() ==> (#[trigger] final(self).queue@[i]) == (if vname(old(self).queue@[i].1) == Some(name@) { QueuedTok(TokSpan(tok, old(self).queue@[i].0.1), old(self).queue@[i].1) } else { old(self).queue@[i] })
//@loop 0
    invariant
        self.stores == old(self).stores, self.cmd_names == old(self).cmd_names, self.lexer == old(self).lexer, self.lexer_is_eoi == old(self).lexer_is_eoi, self.next_non_whitespace == old(self).next_non_whitespace,
        self.queue@.len() == old(self).queue@.len(), vx_k0 <= self.queue@.len(),
        forall|i: int| vx_k0 <= i < self.queue@.len() ==> #[trigger] self.queue@[i] == old(self).queue@[i],
        forall|i: int| 0 <= i < vx_k0 ==> (#[trigger] self.queue@[i]) == (if vname(old(self).queue@[i].1) == Some(name@) { QueuedTok(TokSpan(tok, old(self).queue@[i].0.1), old(self).queue@[i].1) } else { old(self).queue@[i] }),
    decreases self.queue@.len() - vx_k0
//@endfn
//@fn TokenQueue::define
//@ret r
//@spec
    requires old(self).good(), body_ok(old(self).stores, body@), !replace ==> resolve(old(self).stores, name@) is None
    ensures r, ({
        let kept = is_global || old(self).stores.parser_cfg.global_group;
        defined(old(self).stores, final(self).stores, name@, num_args, first_class, body@, kept) }),
        final(self).good(), final(self).cmd_names == old(self).cmd_names, final(self).lexer == old(self).lexer,
        forall|i: int| 0 <= i ==> #[trigger] at(*final(self), i) == updated(final(self).stores, at(*old(self), i))
//@afterlet store
    let ghost kept = is_global;
    let ghost mid = self.stores;
    proof {
        lemma_defined(old(self).stores, self.stores, name@, num_args, first_class, body@, kept);
        assert forall|i: int| 0 <= i < old(self).queue@.len() implies valid_tok(old(self).cmd_names, #[trigger] old(self).queue@[i]) by {
            assert(queued_ok(old(self).stores, old(self).cmd_names, old(self).queue@[i]));
            if constant(old(self).queue@[i].0.0) { axiom_constant(old(self).queue@[i].0.0); }
        }
    }
//@beforecall resolve_buffered_unknown_commands
    let ghost q1 = self.queue@;
    proof {
        assert forall|i: int| 0 <= i < q1.len() implies #[trigger] q1[i] == renamed(replace, name@, resolve(mid, name@)->0, old(self).queue@[i]) by { }
        assert forall|i: int| 0 <= i < q1.len() implies valid_tok(self.cmd_names, #[trigger] q1[i]) by { assert(valid_tok(old(self).cmd_names, old(self).queue@[i])); }
    }
//@end
    proof {
        let q = old(self).queue@;
        assert forall|i: int| 0 <= i < q.len() implies queued_ok(self.stores, self.cmd_names, #[trigger] self.queue@[i]) && item(self.cmd_names, self.queue@[i]) == updated(self.stores, item(self.cmd_names, q[i])) && blank_tok(self.queue@[i]) == blank_tok(q[i]) by {
            assert(q1[i] == renamed(replace, name@, resolve(mid, name@)->0, q[i]));
            lemma_updated(old(self).stores, self.stores, self.cmd_names, name@, replace, q[i], self.queue@[i]);
        }
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == updated(self.stores, at(*old(self), i)) by { if i < q.len() { assert(item(self.cmd_names, self.queue@[i]) == updated(self.stores, item(self.cmd_names, q[i]))); } }
    }
//@endfn
}

// ---- reading groups and arguments ------------------------------------------------------------------
pub open spec fn is_tok(it: Item, t: Token) -> bool { it.v == V::Tok(t) }
/// opened minus closed braces in the stream from `a` to `b`
pub open spec fn depth(tq: TokenQueue, a: int, b: int) -> int
    decreases b - a
{
    if a >= b { 0 } else { depth(tq, a, b - 1) + (if is_tok(at(tq, b - 1), Token::GroupBegin) { 1int } else if is_tok(at(tq, b - 1), Token::GroupEnd) { -1 } else { 0 }) }
}
/// the group that is open at `a` ends before `m`, or goes on at least until there
pub open spec fn inside(tq: TokenQueue, a: int, m: int) -> bool {
    forall|k: int| a <= k < m ==> !is_tok(#[trigger] at(tq, k), Token::Eoi) && !(is_tok(at(tq, k), Token::GroupEnd) && depth(tq, a, k) == 0)
}
/// the brace at `m` closes the group that is open at `a`
pub open spec fn closing(tq: TokenQueue, a: int, m: int) -> bool { a <= m && is_tok(at(tq, m), Token::GroupEnd) && depth(tq, a, m) == 0 && inside(tq, a, m) }
pub open spec fn strm(tq: TokenQueue, a: int, b: int) -> Seq<Item> { Seq::new((b - a) as nat, |i: int| at(tq, a + i)) }
pub open spec fn shifted(o: TokenQueue, f: TokenQueue, n: int) -> bool { f.good() && f.kept(o) && forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, n + i) }
/// `new` is `old` and then the tokens of the stream of `o` from `a` on
pub open spec fn tail(o: TokenQueue, st: Stores, p: StringPool, a: int, old_tokens: Seq<QueuedTok>, new: Seq<QueuedTok>) -> bool {
    &&& new.len() >= old_tokens.len() && forall|i: int| 0 <= i < old_tokens.len() ==> #[trigger] new[i] == old_tokens[i]
    &&& forall|i: int| 0 <= i < new.len() - old_tokens.len() ==> #[trigger] item(p, new[old_tokens.len() + i]) == at(o, a + i)
    &&& forall|i: int| old_tokens.len() <= i < new.len() ==> queued_ok(st, p, #[trigger] new[i])
}
proof fn lemma_tail(o: TokenQueue, st: Stores, p: StringPool, p2: StringPool, a: int, old_tokens: Seq<QueuedTok>, new: Seq<QueuedTok>, q: QueuedTok)
    requires tail(o, st, p, a, old_tokens, new), grows(p, p2), queued_ok(st, p2, q), item(p2, q) == at(o, a + new.len() - old_tokens.len())
    ensures tail(o, st, p2, a, old_tokens, new.push(q))
{
    let n = old_tokens.len() as int;
    assert forall|i: int| 0 <= i < new.len() + 1 - n implies #[trigger] item(p2, new.push(q)[n + i]) == at(o, a + i) by {
        if n + i < new.len() { lemma_item_grows(st, p, p2, new[n + i]); assert(item(p, new[n + i]) == at(o, a + i)); }
    }
    assert forall|i: int| n <= i < new.len() + 1 implies queued_ok(st, p2, #[trigger] new.push(q)[i]) by {
        if i < new.len() { lemma_item_grows(st, p, p2, new[i]); }
    }
}
/// the body of the group that is open at `a` was read and its closing brace is next
pub open spec fn body_read(o: TokenQueue, f: TokenQueue, a: int, m: int, old_tokens: Seq<QueuedTok>, new: Seq<QueuedTok>) -> bool {
    closing(o, a, m) && shifted(o, f, m) && new.len() == old_tokens.len() + m - a && tail(o, f.stores, f.cmd_names, a, old_tokens, new)
}
/// the same, with the brace read as well
pub open spec fn group_read(o: TokenQueue, f: TokenQueue, a: int, m: int, old_tokens: Seq<QueuedTok>, new: Seq<QueuedTok>) -> bool {
    closing(o, a, m) && shifted(o, f, m + 1) && new.len() == old_tokens.len() + m - a && tail(o, f.stores, f.cmd_names, a, old_tokens, new)
}
/// a vector of things that are not of size zero holds at most `isize::MAX` bytes
#[verifier::external_body]
pub proof fn axiom_tokens_len<T>(v: &Vec<T>) ensures v@.len() < usize::MAX { }
/// std: `impl<T> From<T> for T` is the identity
#[verifier::external_body]
pub proof fn axiom_from_self<'a>()
    ensures <QueuedTok<'a> as vstd::std_specs::convert::FromSpec<QueuedTok<'a>>>::obeys_from_spec(),
        forall|q: QueuedTok<'a>| #[trigger] <QueuedTok<'a> as vstd::std_specs::convert::FromSpec<QueuedTok<'a>>>::from_spec(q) == q
{ }
/// some place of the stream is the end of the input
proof fn lemma_eoi(tq: TokenQueue) -> (e: int)
    ensures 0 <= e, is_tok(at(tq, e), Token::Eoi)
{ axiom_end(tq.lexer); let n = tq.queue@.len() as int; assert(at(tq, n + left(tq.lexer)).v == V::Tok(Token::Eoi)); n + left(tq.lexer) }
proof fn lemma_depth(tq: TokenQueue, a: int, b: int)
    ensures depth(tq, a, b) <= if b >= a { b - a } else { 0 }
    decreases b - a
{ if a < b { lemma_depth(tq, a, b - 1); } }
proof fn lemma_token(st: Stores, p: StringPool, q: QueuedTok, t: Token)
    requires queued_ok(st, p, q), !(t is UnresolvedCommand)
    ensures is_tok(item(p, q), t) == (q.0.0 == t)
{ }
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::record_macro_body
//@ret r
//@spec
    requires old(self).good(), is_tok(at(*old(self), old(self).next_non_whitespace as int), Token::GroupBegin)
    ensures r is Ok ==> exists|m: int| #[trigger] body_read(*old(self), *final(self), old(self).next_non_whitespace + 1, m, old(tokens)@, final(tokens)@)
//@start
    let ghost a = old(self).next_non_whitespace + 1;
    let ghost e = lemma_eoi(*old(self));
//@beforeloop 0
    proof {
        if e < a { assert(item(old(self).cmd_names, old(self).queue@[e]) == at(*old(self), e)); }
        assert(e >= a);
        assert(depth(*old(self), a, a) == 0);
        assert(shifted(*old(self), *self, a));
    }
//@loop 0
    invariant
        old(self).good(), a == old(self).next_non_whitespace + 1, tokens@.len() >= old(tokens)@.len(), e >= a + tokens@.len() - old(tokens)@.len(), is_tok(at(*old(self), e), Token::Eoi),
        shifted(*old(self), *self, a + tokens@.len() - old(tokens)@.len()), inside(*old(self), a, a + tokens@.len() - old(tokens)@.len()),
        nesting_level == depth(*old(self), a, a + tokens@.len() - old(tokens)@.len()), tail(*old(self), self.stores, self.cmd_names, a, old(tokens)@, tokens@)
    decreases e - a - tokens@.len() + old(tokens)@.len()
//@loopstart 0
    let ghost k = a + tokens@.len() - old(tokens)@.len();
    let ghost before = *self;
    proof {
        assert(at(*self, 0) == at(*old(self), k));
        assert(at(*self, 0) == item(self.cmd_names, self.queue@[0]));
        assert(queued_ok(self.stores, self.cmd_names, self.queue@[0]));
        lemma_depth(*old(self), a, k);
        axiom_tokens_len(&*tokens);
        if self.queue@[0].0.0 is GroupEnd && nesting_level == 0 { assert(body_read(*old(self), *self, a, k, old(tokens)@, tokens@)); }
    }
//@aftercall push
    proof {
        assert(taken(before, *self, 0));
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), k + 1 + i) by { assert(at(before, i + 1) == at(*old(self), k + i + 1)); }
        lemma_grows_trans(old(self).cmd_names, before.cmd_names, self.cmd_names);
        lemma_tail(*old(self), before.stores, before.cmd_names, self.cmd_names, a, old(tokens)@, before_tokens, tokloc);
    }
//@beforecall push
    let ghost before_tokens = tokens@;
//@endfn
//@fn TokenQueue::record_group
//@ret r
//@spec
    requires old(self).good(), T::obeys_from_spec()
    ensures r is Ok ==> final(self).good() && final(self).kept(*old(self)),
        r is Ok && preserve_all ==> exists|m: int, qs: Seq<QueuedTok<'arena>>| #[trigger] group_read(*old(self), *final(self), 0, m, seq![], qs) && final(tokens)@ == old(tokens)@ + qs.map_values(|q: QueuedTok<'arena>| T::from_spec(q))
//@start
    let ghost mut qs: Seq<QueuedTok<'arena>> = seq![];
    let ghost mut pos: int = 0;
    let ghost e = lemma_eoi(*old(self));
    proof { lemma_grows_refl(self.cmd_names); assert(tokens@ =~= old(tokens)@ + qs.map_values(|q: QueuedTok<'arena>| T::from_spec(q))); assert(depth(*old(self), 0, 0) == 0); }
//@loop 0
    invariant_except_break
        preserve_all ==> pos == qs.len() && inside(*old(self), 0, pos) && nesting_level == depth(*old(self), 0, pos)
            && tail(*old(self), self.stores, self.cmd_names, 0, seq![], qs) && tokens@ == old(tokens)@ + qs.map_values(|q: QueuedTok<'arena>| T::from_spec(q)),
        nesting_level <= tokens@.len() - old(tokens)@.len(), tokens@.len() >= old(tokens)@.len(),
        e >= pos, shifted(*old(self), *self, pos)
    invariant
        T::obeys_from_spec(), is_tok(at(*old(self), e), Token::Eoi)
    ensures
        self.good(), self.kept(*old(self)),
        preserve_all ==> group_read(*old(self), *self, 0, qs.len() as int, seq![], qs) && tokens@ == old(tokens)@ + qs.map_values(|q: QueuedTok<'arena>| T::from_spec(q))
    decreases e - pos
//@loopstart 0
    let ghost before = *self;
    let ghost before_tokens = tokens@;
    proof {
        axiom_tokens_len(&*tokens);
    }
//@afterlet tokloc #1
    let ghost n: int = if preserve_all { 0 } else { before.next_non_whitespace as int };
    proof {
        assert(taken(before, *self, n));
        assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), pos + n + 1 + i) by { assert(at(before, n + 1 + i) == at(*old(self), pos + n + 1 + i)); }
        lemma_grows_trans(old(self).cmd_names, before.cmd_names, self.cmd_names);
        assert(at(before, n) == at(*old(self), pos + n));
        if e < pos + n { assert(at(before, e - pos) == at(*old(self), e)); assert(blank_tok(before.queue@[e - pos])); }
        if e == pos + n { assert(tokloc.0.0 is Eoi); }
        if preserve_all && tokloc.0.0 is GroupEnd && nesting_level == 0 {
            assert forall|i: int| 0 <= i < qs.len() implies queued_ok(self.stores, self.cmd_names, #[trigger] qs[i]) && item(self.cmd_names, qs[i]) == item(before.cmd_names, qs[i]) by { lemma_item_grows(self.stores, before.cmd_names, self.cmd_names, qs[i]); }
            assert forall|i: int| 0 <= i < qs.len() implies #[trigger] item(self.cmd_names, qs[0 + i]) == at(*old(self), 0 + i) by { assert(item(before.cmd_names, qs[0 + i]) == at(*old(self), 0 + i)); }
            assert(tail(*old(self), self.stores, self.cmd_names, 0, seq![], qs));
            assert(group_read(*old(self), *self, 0, qs.len() as int, seq![], qs));
        }
    }
//@aftercall push
    proof {
        if preserve_all {
            lemma_tail(*old(self), before.stores, before.cmd_names, self.cmd_names, 0, seq![], qs, tokloc);
            assert(tokens@ =~= old(tokens)@ + qs.push(tokloc).map_values(|q: QueuedTok<'arena>| T::from_spec(q)));
            qs = qs.push(tokloc);
        }
        pos = pos + n + 1;
    }
//@endfn
}
/// the arena of mathml-renderer
#[verifier::external_body]
pub struct Arena { x: u8 }
impl Arena {
    #[verifier::external_body]
    pub fn alloc_str(&self, src: &str) -> (r: &str) ensures r@ == src@ { unimplemented!() }
}
//@extract enum MacroArgument
/// the same stream, further on
proof fn lemma_shift(o: TokenQueue, f: TokenQueue, k: int, a: int, b: int)
    requires forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, k + i), 0 <= a
    ensures depth(f, a, b) == depth(o, k + a, k + b)
    decreases b - a
{ if a < b { lemma_shift(o, f, k, a, b - 1); assert(at(f, b - 1) == at(o, k + (b - 1))); } }
proof fn lemma_shift_closing(o: TokenQueue, f: TokenQueue, k: int, a: int, m: int)
    requires forall|i: int| 0 <= i ==> #[trigger] at(f, i) == at(o, k + i), 0 <= a, closing(f, a, m)
    ensures closing(o, k + a, k + m)
{
    lemma_shift(o, f, k, a, m);
    assert(at(f, m) == at(o, k + m));
    assert forall|i: int| k + a <= i < k + m implies !is_tok(#[trigger] at(o, i), Token::Eoi) && !(is_tok(at(o, i), Token::GroupEnd) && depth(o, k + a, i) == 0) by {
        assert(at(f, i - k) == at(o, k + (i - k)));
        lemma_shift(o, f, k, a, i - k);
    }
}
pub open spec fn blank_item(it: Item) -> bool { it.v matches V::Tok(t) && t is Whitespace }
/// an argument that begins at `p`: blanks up to `n`, then a token, or a group that ends at `m`; the next thing begins at `q`
pub open spec fn arg_at(o: TokenQueue, p: int, n: int, m: int, q: int, its: Seq<Item>) -> bool {
    &&& 0 <= p <= n && (forall|i: int| p <= i < n ==> blank_item(#[trigger] at(o, i))) && !blank_item(at(o, n))
    &&& if is_tok(at(o, n), Token::GroupBegin) { closing(o, n + 1, m) && q == m + 1 && its == strm(o, n + 1, m) } else { q == n + 1 && its == seq![at(o, n)] }
}
/// `k` arguments one after the other
pub open spec fn args_at(o: TokenQueue, p: int, its: Seq<Seq<Item>>, q: int) -> bool
    decreases its.len()
{
    if its.len() == 0 { p == q } else { exists|q1: int, n: int, m: int| args_at(o, p, its.drop_last(), q1) && #[trigger] arg_at(o, q1, n, m, q, its.last()) }
}
proof fn lemma_args_push(o: TokenQueue, p: int, its: Seq<Seq<Item>>, q: int, n: int, m: int, q2: int, it: Seq<Item>)
    requires args_at(o, p, its, q), arg_at(o, q, n, m, q2, it)
    ensures args_at(o, p, its.push(it), q2)
{
    assert(its.push(it).drop_last() =~= its);
    assert(its.push(it).last() == it);
    assert(args_at(o, p, its.push(it).drop_last(), q) && arg_at(o, q, n, m, q2, its.push(it).last()));
}
/// blanks of the queue are blanks of the stream
proof fn lemma_blanks(tq: TokenQueue)
    requires tq.good()
    ensures forall|i: int| 0 <= i < tq.next_non_whitespace ==> blank_item(#[trigger] at(tq, i)), !blank_item(at(tq, tq.next_non_whitespace as int))
{
    assert forall|i: int| 0 <= i < tq.next_non_whitespace implies blank_item(#[trigger] at(tq, i)) by { assert(blank_tok(tq.queue@[i])); assert(queued_ok(tq.stores, tq.cmd_names, tq.queue@[i])); }
    let q = tq.queue@[tq.next_non_whitespace as int];
    assert(queued_ok(tq.stores, tq.cmd_names, q));
}
// -- what is written into a body
/// parameters that the command does not have, and definitions
pub open spec fn banned(q: QueuedTok, num_args: u8) -> bool {
    match q.0.0 { Token::CustomCmdArgInput(n) => n >= num_args, Token::NewCommand(_) | Token::Let | Token::Def(_) | Token::Global => true, _ => false }
}
pub open spec fn is_name(r: RecordedToken, n: Seq<char>) -> bool { r matches RecordedToken::CommandName(x) && x@ == n }
/// commands are written down by name, everything else as it is
pub open spec fn noted(p: StringPool, q: QueuedTok, r: RecordedToken) -> bool {
    match q.0.0 {
        Token::CustomCmdArgInput(n) => r == RecordedToken::Token(Token::CustomCmdArg(n)),
        Token::UnresolvedCommand(h) => is_name(r, text(p, h)),
        t => match q.1 { Some(n) => is_name(r, n@), None => r == RecordedToken::Token(t) },
    }
}
/// no reference out of range and no stray name
pub open spec fn sane(st: Stores, p: StringPool, q: QueuedTok) -> bool { tok_ok(st, q.0.0) || (q.0.0 matches Token::UnresolvedCommand(h) && valid(p, h)) }
/// the tokens of `qs` are written down as `rs`
pub open spec fn all_noted(p: StringPool, qs: Seq<QueuedTok>, rs: Seq<RecordedToken>, num_args: u8) -> bool {
    rs.len() <= qs.len() && forall|i: int| 0 <= i < rs.len() ==> !banned(qs[i], num_args) && noted(p, #[trigger] qs[i], rs[i])
}
/// the class of the first token that has one
pub open spec fn first_class_of(qs: Seq<QueuedTok>, k: int) -> Option<Class>
    decreases k
{
    if k <= 0 { None } else { let c = first_class_of(qs, k - 1); if c is Some || qs[k - 1].0.0 is CustomCmdArgInput { c } else { class_of(qs[k - 1].0.0) } }
}
impl<'state, 'arena> TokenQueue<'state, 'arena> {
//@fn TokenQueue::read_definition_name
//@ret r
//@spec
    requires old(self).good()
    ensures r matches Ok(n) ==> taken(*old(self), *final(self), old(self).next_non_whitespace as int) && ({
        let it = at(*old(self), old(self).next_non_whitespace as int);
        match it.v { V::Name(s) => n@ == s, V::Tok(_) => it.name == Some(n@) } })
//@afterlet name_tokspan
    proof { lemma_unresolved(self.stores, self.cmd_names, old(self).queue@[old(self).next_non_whitespace as int]); }
//@endfn
//@fn TokenQueue::map_recorded_tokens
//@ret r
//@spec
    requires forall|i: int| 0 <= i < body_tokspans@.len() ==> sane(self.stores, self.cmd_names, #[trigger] body_tokspans@[i])
    ensures match r {
        Ok((body, class)) => body@.len() == body_tokspans@.len() && class == first_class_of(body_tokspans@, body_tokspans@.len() as int)
            && all_noted(self.cmd_names, body_tokspans@, body@, num_args)
            && (forall|i: int| 0 <= i < body@.len() ==> stored_ok(self.stores, #[trigger] body@[i]) && backwards(body@[i], self.stores.local_cmds.tokens@.len() as int)),
        Err(_) => exists|i: int| 0 <= i < body_tokspans@.len() && #[trigger] banned(body_tokspans@[i], num_args) }
//@forvar 0 it
//@loop 0
    invariant
        it.seq() == body_tokspans@, forall|i: int| 0 <= i < body_tokspans@.len() ==> sane(self.stores, self.cmd_names, #[trigger] body_tokspans@[i]), vx_vec@.len() == it.index@, first_class == first_class_of(body_tokspans@, it.index@ as int),
        all_noted(self.cmd_names, body_tokspans@, vx_vec@, num_args),
        (forall|i: int| 0 <= i < vx_vec@.len() ==> stored_ok(self.stores, #[trigger] vx_vec@[i]) && backwards(vx_vec@[i], self.stores.local_cmds.tokens@.len() as int)),
//@loopstart 0
    proof {
        assert(queued == body_tokspans@[it.index@ as int]);
        assert(sane(self.stores, self.cmd_names, queued));
        if constant(queued.0.0) { axiom_constant(queued.0.0); }
        assert(banned(queued, num_args) ==> banned(body_tokspans@[it.index@ as int], num_args));
    }
//@loopend 0
    proof {
        let k = it.index@ as int;
        assert(!banned(queued, num_args));
        assert(noted(self.cmd_names, queued, vx_vec@[k]));
        assert(body_tokspans@[k] == queued);
        assert(noted(self.cmd_names, body_tokspans@[k], vx_vec@[k]));
    }
//@endfn
//@fn TokenQueue::read_argument
//@ret r
//@spec
    requires old(self).good()
    ensures r is Ok ==> final(self).good() && final(self).kept(*old(self)),
        r is Ok && preserve_all ==> exists|n: int, m: int, q: int, qs: Seq<QueuedTok<'arena>>| {
            &&& #[trigger] arg_at(*old(self), 0, n, m, q, #[trigger] items(final(self).cmd_names, qs)) && shifted(*old(self), *final(self), q) && all_ok(final(self).stores, final(self).cmd_names, qs)
            &&& match r->Ok_0 { MacroArgument::Token(t) => qs.len() == 1 && qs[0].0 == t, MacroArgument::Group(ts, _) => ts@ == qs.map_values(|x: QueuedTok<'arena>| x.0) } }
//@start
    let ghost n = self.next_non_whitespace as int;
    let ghost q = self.queue@[n];
    proof { lemma_blanks(*self); }
//@afterlet first
    let ghost mid = *self;
    proof {
        assert(taken(*old(self), mid, n));
        lemma_token(old(self).stores, old(self).cmd_names, q, Token::GroupBegin);
        lemma_item_grows(old(self).stores, old(self).cmd_names, mid.cmd_names, q);
        assert(item(mid.cmd_names, q) == at(*old(self), n));
        if preserve_all && !(first.0 is GroupBegin) {
            let qs = seq![q];
            assert(items(mid.cmd_names, qs) =~= seq![at(*old(self), n)]);
            assert(arg_at(*old(self), 0, n, 0, n + 1, items(mid.cmd_names, qs)));
            assert(qs[0].0 == first);
        }
    }
//@afterlet end_loc
    proof {
        lemma_grows_trans(old(self).cmd_names, mid.cmd_names, self.cmd_names);
        if preserve_all {
            let (m, qs) = choose|m: int, qs: Seq<QueuedTok<'arena>>| #[trigger] group_read(mid, *self, 0, m, seq![], qs) && tokens@ == Seq::<TokSpan>::empty() + qs.map_values(|q: QueuedTok<'arena>| <TokSpan as vstd::std_specs::convert::FromSpec<QueuedTok<'arena>>>::from_spec(q));
            lemma_shift_closing(*old(self), mid, n + 1, 0, m);
            assert(items(self.cmd_names, qs) =~= strm(*old(self), n + 1, n + 1 + m)) by {
                assert forall|i: int| 0 <= i < m implies item(self.cmd_names, #[trigger] qs[i]) == at(*old(self), n + 1 + i) by { assert(item(self.cmd_names, qs[0 + i]) == at(mid, 0 + i)); assert(at(mid, i) == at(*old(self), n + 1 + i)); }
            }
            assert(arg_at(*old(self), 0, n, n + 1 + m, n + 1 + m + 1, items(self.cmd_names, qs)));
            assert(shifted(*old(self), *self, n + 1 + m + 1)) by {
                assert forall|i: int| 0 <= i implies #[trigger] at(*self, i) == at(*old(self), n + 1 + m + 1 + i) by { assert(at(*self, i) == at(mid, m + 1 + i)); assert(at(mid, m + 1 + i) == at(*old(self), n + 1 + (m + 1 + i))); }
            }
            assert(tokens@ =~= qs.map_values(|x: QueuedTok<'arena>| x.0));
        }
    }
//@endfn
}
// ---- the parser ------------------------------------------------------------------------------------
/// what the parser holds besides, not looked at here
#[verifier::external_body]
pub struct EnvState<'a> { x: &'a str }
#[verifier::external_body]
pub struct Buffer { x: u8 }
#[verifier::external_body]
pub struct Node<'a> { x: &'a str }
//@file crates/math-core/src/parser.rs
//@extract type ParseResult
//@extract struct ParserState
//@extract struct Parser
//@extract enum Parsed
/// only the tokens and the arguments changed
pub open spec fn state_kept(o: ParserState, f: ParserState) -> bool {
    o.transform == f.transform && o.right_boundary_hack == f.right_boundary_hack && o.env == f.env && o.style == f.style && o.vertical_line_def == f.vertical_line_def
}
pub open spec fn parser_kept(o: Parser, f: Parser) -> bool { state_kept(o.state, f.state) && f.buffer == o.buffer && f.arena == o.arena }
/// the arguments in the buffer are these
pub open spec fn holds_args(p: StringPool, a: CmdArgs, its: Seq<Seq<Item>>) -> bool { forall|k: int| 0 <= k < its.len() ==> items(p, arg_of(a, k as u8)) == #[trigger] its[k] }
pub open spec fn arg_lo(a: CmdArgs, k: int) -> int { if k == 0 { 0 } else { a.offsets@[k - 1] as int } }
/// the arguments in the buffer so far
pub open spec fn segs(p: StringPool, a: CmdArgs, its: Seq<Seq<Item>>) -> bool {
    &&& its.len() <= 9 && arg_lo(a, its.len() as int) == a.tokens@.len()
    &&& forall|k: int| 0 <= k < its.len() ==> seg(p, a, k, #[trigger] its[k])
}
pub open spec fn seg(p: StringPool, a: CmdArgs, k: int, it: Seq<Item>) -> bool { arg_lo(a, k) <= a.offsets@[k] <= a.tokens@.len() && items(p, a.tokens@.subrange(arg_lo(a, k), a.offsets@[k] as int)) == it }
proof fn lemma_segs(st: Stores, p: StringPool, p2: StringPool, a: CmdArgs, its: Seq<Seq<Item>>, a2: CmdArgs, qs: Seq<QueuedTok>)
    requires segs(p, a, its), grows(p, p2), all_ok(st, p, a.tokens@), its.len() < 9, all_ok(st, p2, qs),
        a2.tokens@ == a.tokens@ + qs, a2.offsets@ == a.offsets@.update(its.len() as int, a2.tokens@.len() as usize)
    ensures segs(p2, a2, its.push(items(p2, qs))), all_ok(st, p2, a2.tokens@)
{
    let n = its.len() as int;
    lemma_all_grows(st, p, p2, a.tokens@);
    axiom_tokens_len(&a2.tokens);
    assert forall|i: int| 0 <= i < a2.tokens@.len() implies queued_ok(st, p2, #[trigger] a2.tokens@[i]) by { if i < a.tokens@.len() { assert(a2.tokens@[i] == a.tokens@[i]); } else { assert(a2.tokens@[i] == qs[i - a.tokens@.len()]); } }
    assert forall|k: int| 0 <= k <= n implies seg(p2, a2, k, #[trigger] its.push(items(p2, qs))[k]) by {
        if k < n {
            assert(seg(p, a, k, its[k]));
            let s1 = a.tokens@.subrange(arg_lo(a, k), a.offsets@[k] as int);
            assert(a2.tokens@.subrange(arg_lo(a2, k), a2.offsets@[k] as int) =~= s1);
            assert forall|i: int| 0 <= i < s1.len() implies queued_ok(st, p, #[trigger] s1[i]) by { assert(s1[i] == a.tokens@[arg_lo(a, k) + i]); }
            lemma_items_grow(st, p, p2, s1);
        } else {
            assert(a2.tokens@.subrange(arg_lo(a2, n), a2.offsets@[n] as int) =~= qs);
        }
    }
}
proof fn lemma_holds(p: StringPool, a: CmdArgs, its: Seq<Seq<Item>>)
    requires segs(p, a, its)
    ensures holds_args(p, a, its)
{
    assert forall|k: int| 0 <= k < its.len() implies items(p, arg_of(a, k as u8)) == #[trigger] its[k] by {
        assert(seg(p, a, k, its[k]));
    }
}
/// `n` arguments were read: the stream goes on behind them
pub open spec fn args_read(o: TokenQueue, f: TokenQueue, a: CmdArgs, num_args: u8, its: Seq<Seq<Item>>, q: int) -> bool {
    args_at(o, 0, its, q) && its.len() == num_args && shifted(o, f, q) && all_ok(f.stores, f.cmd_names, a.tokens@) && holds_args(f.cmd_names, a, its)
}
/// an argument of one token
proof fn lemma_one_arg(o: TokenQueue, b: TokenQueue, f: TokenQueue, q: int, n: int)
    requires shifted(o, b, q), 0 <= q, b.good(), n == b.next_non_whitespace, taken(b, f, n), !is_tok(at(b, n), Token::GroupBegin)
    ensures arg_at(o, q, q + n, 0, q + n + 1, seq![at(o, q + n)]), shifted(o, f, q + n + 1)
{
    lemma_blanks(b);
    lemma_grows_trans(o.cmd_names, b.cmd_names, f.cmd_names);
    assert forall|i: int| q <= i < q + n implies blank_item(#[trigger] at(o, i)) by { assert(at(b, i - q) == at(o, q + (i - q))); }
    assert(at(b, n) == at(o, q + n));
    assert forall|i: int| 0 <= i implies #[trigger] at(f, i) == at(o, q + n + 1 + i) by { assert(at(b, n + 1 + i) == at(o, q + (n + 1 + i))); }
    assert(arg_at(o, q, q + n, 0, q + n + 1, seq![at(o, q + n)]));
}
/// an argument that is a group
proof fn lemma_shift_arg(o: TokenQueue, b: TokenQueue, mid: TokenQueue, f: TokenQueue, q: int, n: int, m: int)
    requires shifted(o, b, q), 0 <= q, b.good(), n == b.next_non_whitespace, taken(b, mid, n), is_tok(at(b, n), Token::GroupBegin), closing(mid, 0, m), shifted(mid, f, m + 1)
    ensures arg_at(o, q, q + n, q + n + 1 + m, q + n + 1 + m + 1, strm(mid, 0, m)), shifted(o, f, q + n + 1 + m + 1)
{
    lemma_blanks(b);
    lemma_grows_trans(o.cmd_names, b.cmd_names, mid.cmd_names);
    lemma_grows_trans(o.cmd_names, mid.cmd_names, f.cmd_names);
    assert forall|i: int| q <= i < q + n implies blank_item(#[trigger] at(o, i)) by { assert(at(b, i - q) == at(o, q + (i - q))); }
    assert(at(b, n) == at(o, q + n));
    assert forall|i: int| 0 <= i implies #[trigger] at(mid, i) == at(o, q + n + 1 + i) by { assert(at(b, n + 1 + i) == at(o, q + (n + 1 + i))); }
    assert forall|i: int| 0 <= i implies #[trigger] at(f, i) == at(o, q + n + 1 + m + 1 + i) by { assert(at(mid, m + 1 + i) == at(o, q + n + 1 + (m + 1 + i))); }
    lemma_shift_closing(o, mid, q + n + 1, 0, m);
    assert(strm(mid, 0, m) =~= strm(o, q + n + 1, q + n + 1 + m)) by {
        assert forall|i: int| 0 <= i < m implies #[trigger] at(mid, 0 + i) == at(o, q + n + 1 + i) by { assert(at(mid, i) == at(o, q + n + 1 + i)); }
    }
}
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::count_expansion
//@ret r
//@spec
    ensures r is Err <==> old(self).state.expansions_left == 0,
        final(self).tokens == old(self).tokens, parser_kept(*old(self), *final(self)), final(self).state.cmd_args == old(self).state.cmd_args,
        final(self).state.expansions_left == old(self).state.expansions_left - (if r is Ok { 1int } else { 0 })
//@endfn
//@fn Parser::read_cmd_args
//@ret r
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state.expansions_left == old(self).state.expansions_left,
        r is Ok ==> final(self).tokens.good() && final(self).tokens.kept(old(self).tokens) && all_ok(final(self).tokens.stores, final(self).tokens.cmd_names, final(self).state.cmd_args.tokens@),
        r is Ok && num_args <= 9 ==> exists|its: Seq<Seq<Item>>, q: int| #[trigger] args_read(old(self).tokens, final(self).tokens, final(self).state.cmd_args, num_args, its, q)
//@start
    let ghost mut its: Seq<Seq<Item>> = seq![];
    let ghost mut q: int = 0;
    proof { lemma_grows_refl(self.tokens.cmd_names); }
//@forvar 0 it
//@loop 0
    invariant
        parser_kept(*old(self), *self), self.state.expansions_left == old(self).state.expansions_left,
        self.tokens.good(), self.tokens.kept(old(self).tokens), all_ok(self.tokens.stores, self.tokens.cmd_names, self.state.cmd_args.tokens@),
        num_args <= 9 ==> args_at(old(self).tokens, 0, its, q) && shifted(old(self).tokens, self.tokens, q) && its.len() == arg_num && segs(self.tokens.cmd_names, self.state.cmd_args, its)
//@loopstart 0
    let ghost before = *self;
    let ghost n = self.tokens.next_non_whitespace as int;
    let ghost mut new: Seq<QueuedTok<'arena>> = seq![];
    let ghost mut q2: int = 0;
    let ghost mut end: int = 0;
    proof { lemma_blanks(self.tokens); axiom_from_self(); }
//@afterlet queued
    let ghost mid = *self;
    proof {
        assert(taken(before.tokens, mid.tokens, n));
        lemma_grows_trans(old(self).tokens.cmd_names, before.tokens.cmd_names, self.tokens.cmd_names);
        lemma_token(mid.tokens.stores, mid.tokens.cmd_names, queued, Token::GroupBegin);
        lemma_all_grows(mid.tokens.stores, before.tokens.cmd_names, mid.tokens.cmd_names, before.state.cmd_args.tokens@);
    }
//@aftercall record_group
    proof {
        let c = mid.state.cmd_args.tokens@;
        lemma_grows_trans(old(self).tokens.cmd_names, mid.tokens.cmd_names, self.tokens.cmd_names);
        lemma_grows_trans(before.tokens.cmd_names, mid.tokens.cmd_names, self.tokens.cmd_names);
        let (m, qs) = choose|m: int, qs: Seq<QueuedTok<'arena>>| #[trigger] group_read(mid.tokens, self.tokens, 0, m, seq![], qs)
            && self.state.cmd_args.tokens@ == c + qs.map_values(|q: QueuedTok<'arena>| <QueuedTok<'arena> as vstd::std_specs::convert::FromSpec<QueuedTok<'arena>>>::from_spec(q));
        assert(qs.map_values(|q: QueuedTok<'arena>| <QueuedTok<'arena> as vstd::std_specs::convert::FromSpec<QueuedTok<'arena>>>::from_spec(q)) =~= qs);
        new = qs;
        if num_args <= 9 {
            lemma_shift_arg(old(self).tokens, before.tokens, mid.tokens, self.tokens, q, n, m);
            assert(items(self.tokens.cmd_names, qs) =~= strm(mid.tokens, 0, m)) by {
                assert forall|i: int| 0 <= i < m implies item(self.tokens.cmd_names, #[trigger] qs[i]) == at(mid.tokens, i) by { assert(item(self.tokens.cmd_names, qs[0 + i]) == at(mid.tokens, 0 + i)); }
            }
            q2 = q + n + 1 + m + 1;
            end = q + n + 1 + m;
        }
    }
//@beforecall finish_arg
    proof {
        if !(queued.0.0 is GroupBegin) {
            new = seq![queued];
            assert(self.state.cmd_args.tokens@ =~= before.state.cmd_args.tokens@ + new);
            if num_args <= 9 {
                lemma_one_arg(old(self).tokens, before.tokens, self.tokens, q, n);
                assert(items(self.tokens.cmd_names, new) =~= seq![at(before.tokens, n)]);
                assert(at(before.tokens, n) == at(old(self).tokens, q + n));
                q2 = q + n + 1;
            }
        }
        assert(self.state.cmd_args.tokens@ == before.state.cmd_args.tokens@ + new);
        assert(all_ok(self.tokens.stores, self.tokens.cmd_names, new));
    }
//@aftercall finish_arg
    proof {
        if num_args <= 9 {
            lemma_segs(self.tokens.stores, before.tokens.cmd_names, self.tokens.cmd_names, before.state.cmd_args, its, self.state.cmd_args, new);
            lemma_args_push(old(self).tokens, 0, its, q, q + n, end, q2, items(self.tokens.cmd_names, new));
            its = its.push(items(self.tokens.cmd_names, new));
            q = q2;
        } else {
            lemma_all_grows(self.tokens.stores, before.tokens.cmd_names, self.tokens.cmd_names, before.state.cmd_args.tokens@);
            assert forall|i: int| 0 <= i < self.state.cmd_args.tokens@.len() implies queued_ok(self.tokens.stores, self.tokens.cmd_names, #[trigger] self.state.cmd_args.tokens@[i]) by {
                let c = before.state.cmd_args.tokens@;
                if i < c.len() { assert(queued_ok(self.tokens.stores, self.tokens.cmd_names, c[i])); } else { assert(queued_ok(self.tokens.stores, self.tokens.cmd_names, new[i - c.len()])); }
            }
        }
    }
//@end
    proof { if num_args <= 9 { lemma_holds(self.tokens.cmd_names, self.state.cmd_args, its); assert(args_read(old(self).tokens, self.tokens, self.state.cmd_args, num_args, its, q)); } }
//@endfn
}
/// the arguments were read and the body put in front of what follows them
pub open spec fn expanded(o: TokenQueue, f: TokenQueue, a: CmdArgs, num_args: u8, span: Span, body: Seq<RecordedToken>) -> bool {
    exists|mid: TokenQueue, its: Seq<Seq<Item>>, q: int| #[trigger] args_read(o, mid, a, num_args, its, q) && put(mid, f, expansion(mid.stores, mid.cmd_names, a, span, body))
}
/// the arguments were read and one of them put back
pub open spec fn chosen(o: TokenQueue, f: TokenQueue, a: CmdArgs, num_args: u8, span: Span, k: u8) -> bool {
    exists|mid: TokenQueue, its: Seq<Seq<Item>>, q: int| #[trigger] args_read(o, mid, a, num_args, its, q) && put(mid, f, arg_items(mid.cmd_names, arg_of(a, k), span))
}
pub open spec fn style_index(s: Style) -> u8 { match s { Style::Display => 0, Style::Text => 1, Style::Script => 2, Style::ScriptScript => 3 } }
proof fn lemma_arg_ok(st: Stores, p: StringPool, a: CmdArgs, k: u8)
    requires all_ok(st, p, a.tokens@)
    ensures all_ok(st, p, arg_of(a, k))
{
    assert forall|i: int| 0 <= i < arg_of(a, k).len() implies queued_ok(st, p, #[trigger] arg_of(a, k)[i]) by {
        let lo = if 1 <= k <= 9 { a.offsets@[k - 1] as int } else { 0 };
        assert(arg_of(a, k)[i] == a.tokens@[lo + i]);
    }
}
//@file crates/math-core/src/token.rs
impl MathChoice {
//@fn MathChoice::select
//@opt noconst
//@ret r
//@spec
    ensures r == (match style { Style::Display => self.display, Style::Text => self.text, Style::Script => self.script, Style::ScriptScript => self.scriptscript })
//@endfn
}
//@file crates/math-core/src/parser.rs
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn arm:Parser::parse_one_token:CustomCmd as vx_custom_cmd
//@sig fn vx_custom_cmd(&mut self, vx_tok: Token, span: Span) -> (r: ParseResult<Parsed<'arena>>)
//@spec
    requires old(self).tokens.good(), vx_tok is CustomCmd, constant(vx_tok)
    ensures r is Ok ==> old(self).state.expansions_left > 0 && final(self).state.expansions_left == old(self).state.expansions_left - 1,
        parser_kept(*old(self), *final(self)), r matches Ok(p) ==> p is Expansion && final(self).tokens.good(),
        vx_tok matches Token::CustomCmd(n, ts) ==> (r is Ok && n <= 9 ==> expanded(old(self).tokens, final(self).tokens, final(self).state.cmd_args, n, span, wrapped(ts@)))
//@start
    proof { axiom_constant(vx_tok); }
//@endfn
//@fn arm:Parser::parse_one_token:CustomCmdRef as vx_custom_cmd_ref
//@sig fn vx_custom_cmd_ref(&mut self, vx_tok: Token, span: Span) -> (r: ParseResult<Parsed<'arena>>)
//@spec
    requires old(self).tokens.good(), vx_tok is CustomCmdRef, ref_ok(old(self).tokens.stores, vx_tok)
    ensures r is Ok ==> old(self).state.expansions_left > 0 && final(self).state.expansions_left == old(self).state.expansions_left - 1,
        parser_kept(*old(self), *final(self)), r matches Ok(p) ==> p is Expansion && final(self).tokens.good(),
        vx_tok matches Token::CustomCmdRef(source, n, _, start, end) ==> (r is Ok && n <= 9 ==>
            expanded(old(self).tokens, final(self).tokens, final(self).state.cmd_args, n, span, store_of(old(self).tokens.stores, source).subrange(start as int, end as int)))
//@endfn
//@fn arm:Parser::parse_one_token:MathChoice as vx_math_choice
//@sig fn vx_math_choice(&mut self, vx_tok: Token, span: Span) -> (r: ParseResult<Parsed<'arena>>)
//@spec
    requires old(self).tokens.good(), vx_tok is MathChoice
    ensures parser_kept(*old(self), *final(self)), final(self).state.expansions_left == old(self).state.expansions_left,
        r matches Ok(p) ==> p is Expansion && final(self).tokens.good() && chosen(old(self).tokens, final(self).tokens, final(self).state.cmd_args, 4, span, style_index(old(self).state.style))
//@beforecall queue_arg_in_front
    proof { lemma_arg_ok(self.tokens.stores, self.tokens.cmd_names, self.state.cmd_args, chosen); }
//@endfn
//@fn arm:Parser::parse_one_token:MathChoiceInternal as vx_math_choice_internal
//@sig fn vx_math_choice_internal(&mut self, vx_tok: Token, span: Span) -> (r: ParseResult<Parsed<'arena>>)
//@spec
    requires old(self).tokens.good(), vx_tok is MathChoiceInternal, constant(vx_tok)
    ensures parser_kept(*old(self), *final(self)), final(self).state.expansions_left == old(self).state.expansions_left,
        r matches Ok(p) ==> p is Expansion && (vx_tok matches Token::MathChoiceInternal(_, c) ==>
            put(old(self).tokens, final(self).tokens, seq![Item { v: V::Tok(match old(self).state.style { Style::Display => c.display, Style::Text => c.text, Style::Script => c.script, Style::ScriptScript => c.scriptscript }), span, name: None }]))
//@start
    proof { axiom_constant(vx_tok); lemma_grows_refl(self.tokens.cmd_names); }
//@beforecall queue_in_front
    let ghost ts = seq![TokSpan(token, span)];
    proof {
        axiom_constant(token);
        let want = seq![Item { v: V::Tok(token), span, name: None }];
        assert(ts.map_values(|x: TokSpan| item(old(self).tokens.cmd_names, as_queued(x))) =~= want);
    }
//@aftercall queue_in_front
    proof { assert(seq![TokSpan(token, span)] =~= ts); }
//@endfn
}
// ---- definitions in the text -------------------------------------------------------------------------
/// `n` is the first thing from `p` on that is no blank
pub open spec fn solid(o: TokenQueue, p: int, n: int) -> bool { 0 <= p <= n && (forall|i: int| p <= i < n ==> blank_item(#[trigger] at(o, i))) && !blank_item(at(o, n)) }
pub open spec fn names(it: Item, name: Seq<char>) -> bool { match it.v { V::Name(s) => name == s, V::Tok(_) => it.name == Some(name) } }
proof fn lemma_next(o: TokenQueue, b: TokenQueue, f: TokenQueue, q: int)
    requires shifted(o, b, q), 0 <= q, taken(b, f, b.next_non_whitespace as int)
    ensures solid(o, q, q + b.next_non_whitespace), shifted(o, f, q + b.next_non_whitespace + 1), at(b, b.next_non_whitespace as int) == at(o, q + b.next_non_whitespace),
        at(o, q + b.next_non_whitespace) == item(b.cmd_names, b.queue@[b.next_non_whitespace as int]), queued_ok(b.stores, b.cmd_names, b.queue@[b.next_non_whitespace as int]),
        at(o, q + b.next_non_whitespace) == item(f.cmd_names, b.queue@[b.next_non_whitespace as int]), queued_ok(f.stores, f.cmd_names, b.queue@[b.next_non_whitespace as int]),
        vmath(at(o, q + b.next_non_whitespace).v) == vtok(f.cmd_names, math(b.queue@[b.next_non_whitespace as int].0.0))
{
    let n = b.next_non_whitespace as int;
    lemma_blanks(b);
    lemma_grows_trans(o.cmd_names, b.cmd_names, f.cmd_names);
    assert forall|i: int| q <= i < q + n implies blank_item(#[trigger] at(o, i)) by { assert(at(b, i - q) == at(o, q + (i - q))); }
    assert(at(b, n) == at(o, q + n));
    assert forall|i: int| 0 <= i implies #[trigger] at(f, i) == at(o, q + n + 1 + i) by { assert(at(b, n + 1 + i) == at(o, q + (n + 1 + i))); }
    lemma_item_grows(b.stores, b.cmd_names, f.cmd_names, b.queue@[n]);
    lemma_unresolved(f.stores, f.cmd_names, b.queue@[n]);
}
/// the stream from `q` on, after the definition
pub open spec fn goes_on(o: TokenQueue, f: TokenQueue, q: int) -> bool { f.good() && grows(o.cmd_names, f.cmd_names) && forall|i: int| 0 <= i ==> #[trigger] at(f, i) == updated(f.stores, at(o, q + i)) }
pub open spec fn kept_defs(o: TokenQueue, is_global: bool) -> bool { is_global || o.stores.parser_cfg.global_group }
pub open spec fn is_equals(t: Token) -> bool { t matches Token::Relation(x) && x == EQUALS_SIGN_SPEC() }
pub uninterp spec fn EQUALS_SIGN_SPEC() -> Rel;
#[verifier::external_body]
pub fn vx_is_equals(t: &Token) -> (r: bool) ensures r == is_equals(*t) { unimplemented!() }
/// where the meaning that `\let` gives lies: after an optional `=`
pub open spec fn let_source(o: TokenQueue, p: int, s: int) -> bool {
    exists|k: int| #[trigger] solid(o, p, k) && (if vmath(at(o, k).v) matches V::Tok(t) && is_equals(t) { solid(o, k + 1, s) } else { s == k })
}
pub open spec fn let_at(o: TokenQueue, f: TokenQueue, is_global: bool, n: int, s: int, name: Seq<char>, t: Token) -> bool {
    &&& solid(o, 0, n) && names(at(o, n), name) && let_source(o, n + 1, s) && vmath(at(o, s).v) == V::Tok(t) && !(t is Eoi)
    &&& defined(o.stores, f.stores, name, 0, class_of(t), seq![RecordedToken::Token(t)], kept_defs(o, is_global)) && goes_on(o, f, s + 1)
}
/// `\let\name=source`: the name means what the source means now
pub open spec fn let_effect(o: TokenQueue, f: TokenQueue, is_global: bool) -> bool {
    exists|n: int, s: int, name: Seq<char>, t: Token| #[trigger] let_at(o, f, is_global, n, s, name, t)
}
proof fn lemma_body_ok(st: Stores, p: StringPool, q: QueuedTok)
    requires stores_ok(st), queued_ok(st, p, q), !(math(q.0.0) is UnresolvedCommand)
    ensures stored_ok(st, RecordedToken::Token(math(q.0.0))), backwards(RecordedToken::Token(math(q.0.0)), st.local_cmds.tokens@.len() as int), body_ok(st, seq![RecordedToken::Token(math(q.0.0))])
{ if constant(q.0.0) { axiom_constant(q.0.0); axiom_constant(math(q.0.0)); } }
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::next_token
//@ret r
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state == old(self).state,
        r matches Ok(t) ==> taken(old(self).tokens, final(self).tokens, old(self).tokens.next_non_whitespace as int) && t.0 == math(old(self).tokens.queue@[old(self).tokens.next_non_whitespace as int].0.0)
//@endfn
//@fn Parser::let_command
//@ret r
//@subst matches!(self.tokens.peek().token().unwrap_math_ref(), Token::Relation(symbol::EQUALS_SIGN)) ==> vx_is_equals(self.tokens.peek().token().unwrap_math_ref())
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state == old(self).state, r is Ok ==> let_effect(old(self).tokens, final(self).tokens, is_global)
//@start
    let ghost n = self.tokens.next_non_whitespace as int;
    proof { lemma_grows_refl(self.tokens.cmd_names); assert(shifted(self.tokens, self.tokens, 0)); }
//@afterlet name
    let ghost a = *self;
    let ghost mut q: int = n + 1;
    let ghost k = n + 1 + self.tokens.next_non_whitespace;
    let ghost kt = self.tokens.queue@[self.tokens.next_non_whitespace as int];
    proof { lemma_next(old(self).tokens, old(self).tokens, a.tokens, 0); lemma_blanks(a.tokens); }
//@afterif 0
    let ghost b = *self;
    proof { if is_equals(math(kt.0.0)) { lemma_next(old(self).tokens, a.tokens, b.tokens, n + 1); q = k + 1; } }
//@afterlet src
    let ghost s = q + b.tokens.next_non_whitespace;
    let ghost c = *self;
    let ghost st = b.tokens.queue@[b.tokens.next_non_whitespace as int];
    proof {
        lemma_next(old(self).tokens, b.tokens, c.tokens, q);
        lemma_unresolved(c.tokens.stores, c.tokens.cmd_names, st);
        if !is_equals(math(kt.0.0)) { assert(st == kt); lemma_unresolved(c.tokens.stores, c.tokens.cmd_names, kt); }
        else { let i = a.tokens.next_non_whitespace as int; lemma_unresolved(a.tokens.stores, a.tokens.cmd_names, kt); }
        assert(let_source(old(self).tokens, n + 1, s)) by {
            assert(solid(old(self).tokens, n + 1, k));
            if !is_equals(math(kt.0.0)) { assert(s == k); }
        }
    }
//@afterlet body
    proof { lemma_body_ok(c.tokens.stores, c.tokens.cmd_names, st); assert(body@ =~= seq![RecordedToken::Token(token)]); }
//@aftercall define
    proof {
        assert(let_at(old(self).tokens, self.tokens, is_global, n, s, name@, token)) by {
            assert forall|i: int| 0 <= i implies #[trigger] at(self.tokens, i) == updated(self.tokens.stores, at(old(self).tokens, s + 1 + i)) by { assert(at(c.tokens, i) == at(old(self).tokens, s + 1 + i)); }
        }
    }
//@endfn
}
/// the body of a definition: the group that opens at `b`, or the single token there; the next thing begins at `q`
pub open spec fn body_at(o: TokenQueue, b: int, q: int, p: StringPool, qs: Seq<QueuedTok>) -> bool {
    if is_tok(at(o, b), Token::GroupBegin) { q >= 1 && closing(o, b + 1, q - 1) && items(p, qs) == strm(o, b + 1, q - 1) }
    else { q == b + 1 && qs.len() == 1 && vtok(p, qs[0].0.0) == vmath(at(o, b).v) && vname(qs[0].1) == at(o, b).name && !is_tok(at(o, b), Token::Eoi) }
}
/// the body is written down and the name gets it
pub open spec fn recorded_as(o: TokenQueue, f: TokenQueue, kept: bool, name: Seq<char>, num_args: u8, p: StringPool, qs: Seq<QueuedTok>, body: Seq<RecordedToken>, q: int) -> bool {
    &&& all_noted(p, qs, body, num_args) && body.len() == qs.len()
    &&& defined(o.stores, f.stores, name, num_args, first_class_of(qs, qs.len() as int), body, kept) && goes_on(o, f, q)
}
/// `#1#2..` from `w` up to `b`
pub open spec fn parameters(o: TokenQueue, w: int, b: int) -> bool { w <= b && forall|i: int| w <= i < b ==> is_tok(#[trigger] at(o, i), Token::CustomCmdArgInput((i - w) as u8)) }
pub open spec fn def_at(o: TokenQueue, f: TokenQueue, is_global: bool, n: int, w: int, num_args: u8, q: int, name: Seq<char>, qs: Seq<QueuedTok>, body: Seq<RecordedToken>) -> bool {
    &&& solid(o, 0, n) && names(at(o, n), name) && solid(o, n + 1, w) && parameters(o, w, w + num_args)
    &&& is_tok(at(o, w + num_args), Token::GroupBegin) && body_at(o, w + num_args, q, f.cmd_names, qs)
    &&& recorded_as(o, f, kept_defs(o, is_global), name, num_args, f.cmd_names, qs, body, q)
}
/// `\def\name#1..{body}`
pub open spec fn def_effect(o: TokenQueue, f: TokenQueue, is_global: bool) -> bool {
    exists|n: int, w: int, num_args: u8, q: int, name: Seq<char>, qs: Seq<QueuedTok>, body: Seq<RecordedToken>| #[trigger] def_at(o, f, is_global, n, w, num_args, q, name, qs, body)
}
/// `\global`s and then a definition that is kept
pub open spec fn global_effect(o: TokenQueue, f: TokenQueue) -> bool {
    exists|mid: TokenQueue, q: int| #[trigger] shifted(o, mid, q) && q > 0 && (let_effect(mid, f, true) || def_effect(mid, f, true))
}
proof fn lemma_first(b: TokenQueue, f: TokenQueue)
    requires taken(b, f, 0), b.good()
    ensures at(b, 0) == item(b.cmd_names, b.queue@[0]), queued_ok(b.stores, b.cmd_names, b.queue@[0])
{ }
/// one token taken
proof fn lemma_take(o: TokenQueue, b: TokenQueue, f: TokenQueue, q: int)
    requires shifted(o, b, q), 0 <= q, taken(b, f, 0)
    ensures shifted(o, f, q + 1), at(b, 0) == at(o, q)
{
    lemma_grows_trans(o.cmd_names, b.cmd_names, f.cmd_names);
    assert(at(b, 0) == at(o, q + 0));
    assert forall|i: int| 0 <= i implies #[trigger] at(f, i) == at(o, q + 1 + i) by { assert(at(b, 0 + 1 + i) == at(o, q + (1 + i))); }
}
/// a body that was read, seen from an earlier point of the stream
proof fn lemma_body(o: TokenQueue, b: TokenQueue, f: TokenQueue, f2: TokenQueue, q: int, m: int, qs: Seq<QueuedTok>)
    requires shifted(o, b, q), 0 <= q, is_tok(at(o, q + b.next_non_whitespace), Token::GroupBegin), body_read(b, f, b.next_non_whitespace + 1, m, seq![], qs), taken(f, f2, f.next_non_whitespace as int)
    ensures shifted(o, f2, q + m + 1), all_ok(f.stores, f.cmd_names, qs), f.next_non_whitespace == 0, grows(o.cmd_names, f.cmd_names),
        all_ok(f2.stores, f2.cmd_names, qs), body_at(o, q + b.next_non_whitespace, q + m + 1, f2.cmd_names, qs)
{
    let n = b.next_non_whitespace + 1;
    lemma_shift_closing(o, b, q, n, m);
    lemma_grows_trans(o.cmd_names, b.cmd_names, f.cmd_names);
    lemma_grows_trans(o.cmd_names, f.cmd_names, f2.cmd_names);
    assert forall|i: int| 0 <= i < qs.len() implies queued_ok(f.stores, f.cmd_names, #[trigger] qs[i]) by { }
    assert(items(f.cmd_names, qs) =~= strm(o, q + n, q + m)) by {
        assert forall|i: int| 0 <= i < m - n implies item(f.cmd_names, #[trigger] qs[i]) == at(o, q + n + i) by { assert(item(f.cmd_names, qs[0 + i]) == at(b, n + i)); assert(at(b, n + i) == at(o, q + (n + i))); }
    }
    assert(at(f, 0) == at(b, m + 0));
    assert(at(f, 0) == item(f.cmd_names, f.queue@[0]));
    assert(f.next_non_whitespace == 0) by { if f.next_non_whitespace > 0 { assert(blank_tok(f.queue@[0])); } }
    assert forall|i: int| 0 <= i implies #[trigger] at(f2, i) == at(o, q + m + 1 + i) by { assert(at(f, 0 + 1 + i) == at(b, m + (1 + i))); assert(at(b, m + 1 + i) == at(o, q + (m + 1 + i))); }
    lemma_items_grow(f.stores, f.cmd_names, f2.cmd_names, qs);
    lemma_all_grows(f.stores, f.cmd_names, f2.cmd_names, qs);
}
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::def_command
//@ret r
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state == old(self).state, r is Ok ==> def_effect(old(self).tokens, final(self).tokens, is_global)
//@start
    let ghost n = self.tokens.next_non_whitespace as int;
    proof { lemma_grows_refl(self.tokens.cmd_names); assert(shifted(self.tokens, self.tokens, 0)); }
//@afterlet name
    let ghost mut w: int = n + 1;
    let ghost e2 = lemma_eoi(self.tokens);
    let ghost e = n + 1 + e2;
    proof { lemma_next(old(self).tokens, old(self).tokens, self.tokens, 0); assert(at(self.tokens, e2) == at(old(self).tokens, n + 1 + e2)); }
//@loop 0
    invariant
        parser_kept(*old(self), *self), self.state == old(self).state, shifted(old(self).tokens, self.tokens, w), n + 1 <= w, 0 <= n, is_tok(at(old(self).tokens, e), Token::Eoi), e >= w,
        forall|i: int| n + 1 <= i < w ==> blank_item(#[trigger] at(old(self).tokens, i)),
    decreases e - w
//@loopstart 0
    let ghost before = *self;
    proof { assert(at(self.tokens, 0) == at(old(self).tokens, w + 0)); assert(at(self.tokens, 0) == item(self.tokens.cmd_names, self.tokens.queue@[0])); }
//@loopend 0
    proof { lemma_take(old(self).tokens, before.tokens, self.tokens, w); w = w + 1; }
//@afterloop 0
    proof {
        assert(at(self.tokens, 0) == at(old(self).tokens, w + 0)); assert(at(self.tokens, 0) == item(self.tokens.cmd_names, self.tokens.queue@[0]));
        assert(queued_ok(self.tokens.stores, self.tokens.cmd_names, self.tokens.queue@[0]));
        assert(solid(old(self).tokens, n + 1, w));
    }
//@loop 1
    invariant
        parser_kept(*old(self), *self), self.state == old(self).state, shifted(old(self).tokens, self.tokens, w + num_args), n + 1 <= w, 0 <= n, is_tok(at(old(self).tokens, e), Token::Eoi), e >= w + num_args, num_args <= 9,
        parameters(old(self).tokens, w, w + num_args)
    ensures is_tok(at(old(self).tokens, w + num_args), Token::GroupBegin), self.tokens.next_non_whitespace == 0
    decreases e - w - num_args
//@loopstart 1
    let ghost before = *self;
    let ghost k = w + num_args;
    proof {
        assert(at(self.tokens, 0) == at(old(self).tokens, k + 0));
        assert(at(self.tokens, 0) == item(self.tokens.cmd_names, self.tokens.queue@[0]));
        assert(queued_ok(self.tokens.stores, self.tokens.cmd_names, self.tokens.queue@[0]));
        if constant(self.tokens.queue@[0].0.0) { axiom_constant(self.tokens.queue@[0].0.0); }
        if self.tokens.next_non_whitespace > 0 { assert(blank_tok(self.tokens.queue@[0])); }
    }
//@aftercall next_any_token #1
    proof { lemma_take(old(self).tokens, before.tokens, self.tokens, k); }
//@beforecall record_macro_body
    let ghost b = *self;
    proof { assert(at(self.tokens, 0) == at(old(self).tokens, w + num_args + 0)); assert(body_tokspans@ =~= seq![]); }
//@aftercall record_macro_body
    let ghost f = *self;
    let ghost qs = body_tokspans@;
    let ghost m = choose|m: int| #[trigger] body_read(b.tokens, f.tokens, 1, m, seq![], qs);
//@aftercall next_token
    let ghost f2 = *self;
    proof {
        lemma_body(old(self).tokens, b.tokens, f.tokens, f2.tokens, w + num_args, m, qs);
        assert forall|i: int| 0 <= i < body_tokspans@.len() implies sane(self.tokens.stores, self.tokens.cmd_names, #[trigger] body_tokspans@[i]) by { assert(queued_ok(self.tokens.stores, self.tokens.cmd_names, qs[i])); }
    }
//@aftercall define
    proof {
        let q = w + num_args + m + 1;
        assert(goes_on(old(self).tokens, self.tokens, q)) by {
            assert forall|i: int| 0 <= i implies #[trigger] at(self.tokens, i) == updated(self.tokens.stores, at(old(self).tokens, q + i)) by { assert(at(f2.tokens, i) == at(old(self).tokens, q + i)); }
        }
        assert(def_at(old(self).tokens, self.tokens, is_global, n, w, num_args, q, name@, qs, body@));
    }
//@endfn
}
proof fn lemma_peeked(o: TokenQueue, b: TokenQueue, q: int)
    requires shifted(o, b, q), 0 <= q
    ensures solid(o, q, q + b.next_non_whitespace), at(o, q + b.next_non_whitespace) == item(b.cmd_names, b.queue@[b.next_non_whitespace as int]), queued_ok(b.stores, b.cmd_names, b.queue@[b.next_non_whitespace as int])
{
    let n = b.next_non_whitespace as int;
    lemma_blanks(b);
    assert forall|i: int| q <= i < q + n implies blank_item(#[trigger] at(o, i)) by { assert(at(b, i - q) == at(o, q + (i - q))); }
    assert(at(b, n) == at(o, q + n));
}
/// the name of a `\newcommand`, in braces or not
pub open spec fn name_at(o: TokenQueue, n: int, q: int) -> bool {
    exists|k: int| #[trigger] solid(o, 0, k) && (if is_tok(at(o, k), Token::GroupBegin) {
        q >= 1 && solid(o, k + 1, n) && solid(o, n + 1, q - 1) && vmath(at(o, q - 1).v) == V::Tok(Token::GroupEnd)
    } else { n == k && q == k + 1 })
}
/// the number of arguments, `[n]` or nothing
pub open spec fn count_at(o: TokenQueue, p: int, num_args: u8, q: int) -> bool {
    exists|k: int| #[trigger] solid(o, p, k) && (if at(o, k).v == V::Tok(Token::SquareBracketOpen) { bracket_at(o, k + 1, num_args, q) } else { num_args == 0 && q == p })
}
pub open spec fn bracket_at(o: TokenQueue, p: int, num_args: u8, q: int) -> bool {
    q >= 1 && exists|d: int| #[trigger] solid(o, p, d) && is_digit(vmath(at(o, d).v), num_args) && solid(o, d + 1, q - 1) && vmath(at(o, q - 1).v) == V::Tok(Token::SquareBracketClose)
}
pub open spec fn is_digit(v: V, n: u8) -> bool { v matches V::Tok(t) && (t matches Token::Digit(c) && n == digit_value(c)) }
pub open spec fn digit_value(c: char) -> int { if '0' <= c <= '9' { c as u32 - '0' as u32 } else { 0 } }
/// `\renewcommand` wants a name that means something, `\newcommand` one that does not
pub open spec fn may_define(mode: DefineMode, v: V) -> bool { match mode { DefineMode::New => v is Name, DefineMode::Renew => v is Tok, DefineMode::Provide => v is Name } }
pub open spec fn command_at(o: TokenQueue, f: TokenQueue, mode: DefineMode, n: int, p: int, num_args: u8, p2: int, b: int, q: int, name: Seq<char>, qs: Seq<QueuedTok>, body: Seq<RecordedToken>) -> bool {
    &&& name_at(o, n, p) && names(at(o, n), name) && count_at(o, p, num_args, p2) && solid(o, p2, b) && body_at(o, b, q, f.cmd_names, qs)
    &&& if may_define(mode, vmath(at(o, n).v)) { recorded_as(o, f, o.stores.parser_cfg.global_group, name, num_args, f.cmd_names, qs, body, q) }
        else { mode is Provide && shifted(o, f, q) }
}
/// `\newcommand{\name}[n]{body}` and its kin
pub open spec fn command_effect(o: TokenQueue, f: TokenQueue, mode: DefineMode) -> bool {
    exists|n: int, p: int, num_args: u8, p2: int, b: int, q: int, name: Seq<char>, qs: Seq<QueuedTok>, body: Seq<RecordedToken>| #[trigger] command_at(o, f, mode, n, p, num_args, p2, b, q, name, qs, body)
}
proof fn lemma_name(o: TokenQueue, b: TokenQueue, f: TokenQueue, q: int, t: QueuedTok)
    requires shifted(o, b, q), 0 <= q, taken(b, f, b.next_non_whitespace as int), is_math(b, f, t)
    ensures solid(o, q, q + b.next_non_whitespace), shifted(o, f, q + b.next_non_whitespace + 1), vname(t.1) == at(o, q + b.next_non_whitespace).name, f.stores == o.stores,
        match t.0.0 {
            Token::UnresolvedCommand(h) => valid(f.cmd_names, h) && at(o, q + b.next_non_whitespace).v == V::Name(text(f.cmd_names, h)) && resolve(o.stores, text(f.cmd_names, h)) is None,
            _ => vmath(at(o, q + b.next_non_whitespace).v) == V::Tok(t.0.0),
        }
{
    lemma_next(o, b, f, q);
    lemma_unresolved(f.stores, f.cmd_names, b.queue@[b.next_non_whitespace as int]);
    let q0 = b.queue@[b.next_non_whitespace as int];
    if constant(q0.0.0) { axiom_constant(q0.0.0); }
}
pub open spec fn target_ok(o: TokenQueue, mode: DefineMode, it: Item, target: Option<(&str, bool)>) -> bool {
    match target {
        Some((nm, rep)) => names(it, nm@) && may_define(mode, vmath(it.v)) && (!rep ==> resolve(o.stores, nm@) is None),
        None => mode is Provide && !may_define(mode, vmath(it.v)) && it.name is Some,
    }
}
proof fn lemma_command(o: TokenQueue, g: TokenQueue, f: TokenQueue, mode: DefineMode, n: int, p: int, num_args: u8, p2: int, b: int, q: int, name: &str, replace: bool, qs: Seq<QueuedTok>, body: Seq<RecordedToken>)
    requires name_at(o, n, p), target_ok(o, mode, at(o, n), Some((name, replace))), count_at(o, p, num_args, p2), solid(o, p2, b), body_at(o, b, q, g.cmd_names, qs), shifted(o, g, q), f.cmd_names == g.cmd_names, f.good(),
        all_noted(g.cmd_names, qs, body, num_args), body.len() == qs.len(), defined(g.stores, f.stores, name@, num_args, first_class_of(qs, qs.len() as int), body, g.stores.parser_cfg.global_group),
        forall|i: int| 0 <= i ==> #[trigger] at(f, i) == updated(f.stores, at(g, i))
    ensures command_effect(o, f, mode)
{
    assert(goes_on(o, f, q)) by {
        assert forall|i: int| 0 <= i implies #[trigger] at(f, i) == updated(f.stores, at(o, q + i)) by { assert(at(g, i) == at(o, q + i)); }
    }
    assert(command_at(o, f, mode, n, p, num_args, p2, b, q, name@, qs, body));
}
proof fn lemma_no_command(o: TokenQueue, f: TokenQueue, mode: DefineMode, n: int, p: int, num_args: u8, p2: int, b: int, q: int, qs: Seq<QueuedTok>)
    requires name_at(o, n, p), target_ok(o, mode, at(o, n), None), count_at(o, p, num_args, p2), solid(o, p2, b), body_at(o, b, q, f.cmd_names, qs), shifted(o, f, q)
    ensures command_effect(o, f, mode)
{
    let name = match at(o, n).v { V::Name(s) => s, V::Tok(_) => at(o, n).name->0 };
    assert(names(at(o, n), name));
    assert(command_at(o, f, mode, n, p, num_args, p2, b, q, name, qs, seq![]));
}
proof fn lemma_single(o: TokenQueue, b: TokenQueue, f: TokenQueue, q: int, t: QueuedTok)
    requires shifted(o, b, q), 0 <= q, taken(b, f, b.next_non_whitespace as int), is_math(b, f, t), !(b.queue@[b.next_non_whitespace as int].0.0 is GroupBegin), !(t.0.0 is Eoi)
    ensures body_at(o, q + b.next_non_whitespace, q + b.next_non_whitespace + 1, f.cmd_names, seq![t]), shifted(o, f, q + b.next_non_whitespace + 1), sane(f.stores, f.cmd_names, t)
{
    let q0 = b.queue@[b.next_non_whitespace as int];
    lemma_next(o, b, f, q);
    lemma_unresolved(f.stores, f.cmd_names, q0);
    lemma_token(f.stores, f.cmd_names, q0, Token::GroupBegin);
    lemma_token(f.stores, f.cmd_names, q0, Token::Eoi);
    if constant(q0.0.0) { axiom_constant(q0.0.0); }
    assert(seq![t][0] == t);
}
proof fn lemma_all_sane(st: Stores, p: StringPool, qs: Seq<QueuedTok>)
    requires all_ok(st, p, qs)
    ensures forall|i: int| 0 <= i < qs.len() ==> sane(st, p, #[trigger] qs[i])
{ assert forall|i: int| 0 <= i < qs.len() implies sane(st, p, #[trigger] qs[i]) by { assert(queued_ok(st, p, qs[i])); } }
proof fn lemma_bracket(o: TokenQueue, a3: TokenQueue, c1: TokenQueue, c2: TokenQueue, c3: TokenQueue, p: int, t2: Token, t3: Token)
    requires shifted(o, a3, p), 0 <= p, taken(a3, c1, a3.next_non_whitespace as int), taken(c1, c2, c1.next_non_whitespace as int), taken(c2, c3, c2.next_non_whitespace as int),
        a3.queue@[a3.next_non_whitespace as int].0.0 == Token::SquareBracketOpen, t2 == math(c1.queue@[c1.next_non_whitespace as int].0.0), t3 == math(c2.queue@[c2.next_non_whitespace as int].0.0), t3 is SquareBracketClose, t2 is Digit
    ensures ({ let q = p + a3.next_non_whitespace + 1 + c1.next_non_whitespace + 1 + c2.next_non_whitespace + 1; shifted(o, c3, q) && count_at(o, p, digit_value(t2->Digit_0) as u8, q) })
{
    lemma_next(o, a3, c1, p);
    let k = p + a3.next_non_whitespace;
    lemma_next(o, c1, c2, k + 1);
    lemma_unresolved(c2.stores, c2.cmd_names, c1.queue@[c1.next_non_whitespace as int]);
    let d = k + 1 + c1.next_non_whitespace;
    lemma_next(o, c2, c3, d + 1);
    lemma_unresolved(c3.stores, c3.cmd_names, c2.queue@[c2.next_non_whitespace as int]);
    let q = d + 1 + c2.next_non_whitespace + 1;
    assert(solid(o, p, k) && solid(o, k + 1, d));
    let n = digit_value(t2->Digit_0) as u8;
    assert(is_digit(vmath(at(o, d).v), n));
    assert(bracket_at(o, k + 1, n, q));
}
pub assume_specification[ char::to_digit ](c: char, radix: u32) -> (r: Option<u32>)
    ensures radix == 10 ==> r == (if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as u32) } else { None });
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::global_prefix
//@ret r
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state == old(self).state, r is Ok ==> global_effect(old(self).tokens, final(self).tokens)
//@start
    let ghost mut q: int = 0;
    let ghost e = lemma_eoi(self.tokens);
    proof { lemma_grows_refl(self.tokens.cmd_names); }
//@loop 0
    invariant
        parser_kept(*old(self), *self), self.state == old(self).state, shifted(old(self).tokens, self.tokens, q), 0 <= q <= e, is_tok(at(old(self).tokens, e), Token::Eoi)
    decreases e - q
//@loopstart 0
    let ghost before = *self;
    let ghost n = self.tokens.next_non_whitespace as int;
    proof { lemma_blanks(self.tokens); }
//@afterlet tokspan
    proof {
        lemma_next(old(self).tokens, before.tokens, self.tokens, q);
        if e < q + n { assert(blank_item(at(old(self).tokens, e))); }
        q = q + n + 1;
    }
//@endfn
}
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::define_command
//@ret r
//@attr #[verifier::rlimit(60)]
//@spec
    requires old(self).tokens.good()
    ensures parser_kept(*old(self), *final(self)), final(self).state == old(self).state, r is Ok ==> command_effect(old(self).tokens, final(self).tokens, mode)
//@start
    hide(name_at); hide(count_at); hide(body_at); hide(command_effect); hide(solid); hide(target_ok); hide(all_noted); hide(defined); hide(resolve); hide(body_read); hide(sane);
    let ghost o = self.tokens;
    let ghost k = self.tokens.next_non_whitespace as int;
    let ghost kq = self.tokens.queue@[k];
    let ghost mut q: int = 0;
    proof { lemma_grows_refl(self.tokens.cmd_names); assert(shifted(self.tokens, self.tokens, 0)); lemma_peeked(o, o, 0); lemma_token(o.stores, o.cmd_names, kq, Token::GroupBegin); }
//@afterif 0
    let ghost a1 = *self;
    proof { if braced { lemma_next(o, o, a1.tokens, 0); q = k + 1; } assert(shifted(o, a1.tokens, q)); }
//@afterlet name_tokspan
    let ghost a2 = *self;
    let ghost n = q + a1.tokens.next_non_whitespace;
    proof { lemma_name(o, a1.tokens, a2.tokens, q, name_tokspan); }
//@afterlet target
    proof { assert(target_ok(o, mode, at(o, n), target)) by { reveal(target_ok); } }
//@afterif 2
    let ghost a3 = *self;
    let ghost p = if braced { n + 1 + a2.tokens.next_non_whitespace + 1 } else { n + 1 };
    proof {
        if braced { lemma_next(o, a2.tokens, a3.tokens, n + 1); }
        assert(shifted(o, a3.tokens, p));
        assert(name_at(o, n, p)) by { reveal(name_at); assert(solid(o, 0, k)); }
        lemma_peeked(o, a3.tokens, p);
    }
    let ghost k2 = p + self.tokens.next_non_whitespace;
    let ghost mut p2: int = p;
//@aftercall next_token #1
    let ghost c1 = *self;
//@afterlet tokspan #1
    let ghost c2 = *self;
    let ghost t2 = tokspan;
//@afterlet tokspan #2
    let ghost c3 = *self;
    let ghost t3 = tokspan;
//@afterif 4
    proof {
        lemma_bracket(o, a3.tokens, c1.tokens, c2.tokens, c3.tokens, p, t2.0, t3.0);
        p2 = p + a3.tokens.next_non_whitespace + 1 + c1.tokens.next_non_whitespace + 1 + c2.tokens.next_non_whitespace + 1;
        assert(count_at(o, p, num_args, p2));
    }
//@afterlet num_args #0
    let ghost a4 = *self;
    proof {
        if p2 == p { assert(count_at(o, p, num_args, p2)) by { reveal(count_at); assert(solid(o, p, k2)); } }
        assert(count_at(o, p, num_args, p2)); assert(shifted(o, a4.tokens, p2)); lemma_peeked(o, a4.tokens, p2);
    }
    let ghost b = p2 + a4.tokens.next_non_whitespace;
    let ghost mut r: int = 0;
//@beforecall record_macro_body
    proof { assert(a4.tokens.queue@[a4.tokens.next_non_whitespace as int].0.0 is GroupBegin); assert(at(a4.tokens, a4.tokens.next_non_whitespace as int) == at(o, p2 + a4.tokens.next_non_whitespace)); assert(body_tokspans@ =~= seq![]); }
//@aftercall record_macro_body
    let ghost f = *self;
    let ghost m = choose|m: int| #[trigger] body_read(a4.tokens, f.tokens, a4.tokens.next_non_whitespace + 1, m, seq![], body_tokspans@);
    proof { assert(f.tokens.good()) by { reveal(body_read); } }
//@aftercall next_token #2
    proof {
        lemma_body(o, a4.tokens, f.tokens, self.tokens, p2, m, body_tokspans@); r = p2 + m + 1;
        lemma_all_sane(self.tokens.stores, self.tokens.cmd_names, body_tokspans@);
    }
//@aftercall push
    proof {
        lemma_single(o, a4.tokens, self.tokens, p2, queued); r = p2 + a4.tokens.next_non_whitespace + 1;
        assert(body_tokspans@ =~= seq![queued]);
    }
//@afterif 5
    let ghost a5 = *self;
    let ghost qs = body_tokspans@;
    proof {
        assert(body_at(o, b, r, a5.tokens.cmd_names, qs)); assert(shifted(o, a5.tokens, r));
        assert(forall|i: int| 0 <= i < qs.len() ==> sane(a5.tokens.stores, a5.tokens.cmd_names, #[trigger] qs[i]));
    }
//@afterlet body
    proof { if target is None { lemma_no_command(o, self.tokens, mode, n, p, num_args, p2, b, r, qs); } }
//@end
    proof { reveal(target_ok); lemma_command(o, a5.tokens, self.tokens, mode, n, p, num_args, p2, b, r, name, replace, qs, body@); }
//@endfn
}
#[verifier::external_body]
pub fn vx_len(s: &String) -> (r: usize) ensures r == sbytes(s@).len() { s.len() }
} // verus!
fn main() {}
