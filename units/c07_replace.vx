//@include prelude.vx
//@include utf8.vx
//@include entities.vx

// ---- specification -------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum MathDisplay { Inline, Block }
pub struct Cfg { pub oi: Seq<u8>, pub ob: Seq<u8>, pub ci: Seq<u8>, pub cb: Seq<u8>, pub esc: bool }
/// delimiter `n` stands at position `i` (and, with escape handling, is not directly preceded by a backslash)
pub open spec fn occ(h: Seq<u8>, n: Seq<u8>, esc: bool, i: int) -> bool {
    0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) == n && !(esc && i > 0 && h[i - 1] == 92)
}
/// the first such position at or after `i`
pub open spec fn first_occ(h: Seq<u8>, n: Seq<u8>, esc: bool, i: int) -> Option<int> decreases h.len() + 1 - i {
    if i < 0 || i + n.len() > h.len() { None } else if occ(h, n, esc, i) { Some(i) } else { first_occ(h, n, esc, i + 1) }
}
/// the earliest delimiter, the block delimiter winning a tie
pub open spec fn next_delim(h: Seq<u8>, inl: Seq<u8>, blk: Seq<u8>, esc: bool) -> Option<(MathDisplay, int)> {
    match (first_occ(h, inl, esc, 0), first_occ(h, blk, esc, 0)) {
        (None, None) => None,
        (Some(i), None) => Some((MathDisplay::Inline, i)),
        (None, Some(j)) => Some((MathDisplay::Block, j)),
        (Some(i), Some(j)) => if j <= i { Some((MathDisplay::Block, j)) } else { Some((MathDisplay::Inline, i)) },
    }
}
pub open spec fn dlen(t: MathDisplay, a: Seq<u8>, b: Seq<u8>) -> int { if t == MathDisplay::Inline { a.len() as int } else { b.len() as int } }
/// One formula: the text before it (copied), its decoded content, its mode, where it starts.
pub struct Item { pub gap: Seq<u8>, pub content: Seq<u8>, pub disp: MathDisplay, pub start: int }
pub enum End { Rest(Seq<u8>), Unclosed(int), Mismatch(int, int), Nested(int) }
pub open spec fn cons(i: Item, r: (Seq<Item>, End)) -> (Seq<Item>, End) { (seq![i] + r.0, r.1) }
/// What the document asks for from position `p` on.
#[verifier::opaque]
pub open spec fn run(c: Cfg, s: Seq<u8>, p: int) -> (Seq<Item>, End) decreases s.len() - p {
    if p < 0 || p >= s.len() { (seq![], End::Rest(seq![])) }
    else { match next_delim(s.skip(p), c.oi, c.ob, c.esc) {
        None => (seq![], End::Rest(s.skip(p))),
        Some((t, i)) => {
            let open = p + i;
            let start = open + dlen(t, c.oi, c.ob);
            match next_delim(s.skip(start), c.ci, c.cb, c.esc) {
                None => (seq![], End::Unclosed(open)),
                Some((u, j)) => {
                    let end = start + j;
                    let next = end + dlen(u, c.ci, c.cb);
                    if c.ci != c.cb && t != u { (seq![], End::Mismatch(open, end)) }
                    else { match next_delim(s.subrange(start, end), c.oi, c.ob, c.esc) {
                        Some((_, k)) => (seq![], End::Nested(start + k)),
                        None => if next <= p || next > s.len() { (seq![], End::Rest(seq![])) } else {
                            cons(Item { gap: s.subrange(p, open), content: dec(s.subrange(start, end)), disp: t, start }, run(c, s, next))
                        },
                    } }
                },
            }
        },
    } }
}
/// One call of the converter and what it appended.
pub struct Call { pub content: Seq<u8>, pub disp: MathDisplay, pub out: Seq<char>, pub ok: bool }
pub trait VxState { spec fn log(&self) -> Seq<Call>; }
pub trait VxConv<S: VxState> {
    fn vx_call(&self, state: &mut S, buf: &mut String, content: &str, disp: MathDisplay) -> (r: Result<(), Box<LatexError>>)
        ensures
            final(state).log().len() == old(state).log().len() + 1,
            final(state).log().drop_last() == old(state).log(),
            final(state).log().last().content == sbytes(content@),
            final(state).log().last().disp == disp,
            final(state).log().last().ok == r.is_ok(),
            final(buf)@ == old(buf)@ + final(state).log().last().out;
}
/// the first `n` formulas were converted, once each, in order
pub open spec fn follows(items: Seq<Item>, calls: Seq<Call>) -> bool {
    calls.len() <= items.len() && forall|k: int| 0 <= k < calls.len() ==> (#[trigger] calls[k]).content == items[k].content && calls[k].disp == items[k].disp
}
pub open spec fn all_ok(calls: Seq<Call>) -> bool { forall|k: int| 0 <= k < calls.len() ==> (#[trigger] calls[k]).ok }
/// gaps and outputs in turn
pub open spec fn weave(items: Seq<Item>, calls: Seq<Call>) -> Seq<u8> decreases calls.len() {
    if calls.len() == 0 || items.len() < calls.len() { seq![] }
    else { weave(items, calls.drop_last()) + items[calls.len() - 1].gap + sbytes(calls.last().out) }
}
// ---- lemmas --------------------------------------------------------------------------------------
pub proof fn lemma_first_occ(h: Seq<u8>, n: Seq<u8>, esc: bool, i: int)
    requires 0 <= i
    ensures match first_occ(h, n, esc, i) {
        Some(r) => i <= r && occ(h, n, esc, r) && forall|j: int| i <= j < r ==> !occ(h, n, esc, j),
        None => forall|j: int| i <= j ==> !occ(h, n, esc, j),
    }
    decreases h.len() + 1 - i
{
    if i + n.len() > h.len() { } else if occ(h, n, esc, i) { } else {
        lemma_first_occ(h, n, esc, i + 1);
        assert forall|j: int| i <= j && (match first_occ(h, n, esc, i) { Some(r) => j < r, None => true }) implies !occ(h, n, esc, j) by { if j > i { } }
    }
}
pub proof fn lemma_first_occ_is(h: Seq<u8>, n: Seq<u8>, esc: bool, r: Option<int>)
    requires match r {
        Some(r) => 0 <= r && occ(h, n, esc, r) && forall|j: int| 0 <= j < r ==> !occ(h, n, esc, j),
        None => forall|j: int| 0 <= j ==> !occ(h, n, esc, j),
    }
    ensures first_occ(h, n, esc, 0) == r
{
    lemma_first_occ(h, n, esc, 0);
}
/// A delimiter inside a window of the text is one in the text and the other way round.
pub proof fn lemma_window(h: Seq<u8>, n: Seq<u8>, esc: bool, w: int, i: int)
    requires 0 <= w <= h.len()
    ensures occ(h.take(w), n, esc, i) <==> (occ(h, n, esc, i) && i + n.len() <= w)
{
    if 0 <= i && i + n.len() <= w {
        assert(h.take(w).subrange(i, i + n.len()) =~= h.subrange(i, i + n.len()));
    }
}
/// where a delimiter starts and ends, the text can be split
pub proof fn lemma_prefix_bound(h: Seq<char>, n: Seq<char>)
    requires sbytes(n).len() <= sbytes(h).len(), sbytes(h).take(sbytes(n).len() as int) == sbytes(n)
    ensures is_bound(h, sbytes(n).len() as int)
    decreases n.len()
{
    lemma_encode_nil();
    encode_utf8_valid_utf8(h);
    is_char_boundary_start_end_of_seq(sbytes(h));
    if n.len() == 0 { assert(n =~= Seq::<char>::empty()); }
    else {
        let (a, b) = (sbytes(h), sbytes(n));
        lemma_bound_cons(n, 0);
        lemma_scalar_bytes(n[0]);
        assert(b.len() >= 1);
        if h.len() == 0 { assert(h =~= Seq::<char>::empty()); assert(false); }
        lemma_bound_cons(h, b.len() as int);
        lemma_scalar_bytes(h[0]);
        encode_utf8_first_scalar(h);
        encode_utf8_first_scalar(n);
        encode_utf8_valid_utf8(n);
        assert(a[0] == a.take(b.len() as int)[0]);
        assert(a[0] == b[0]);
        let m = encode_scalar(n[0] as u32).len() as int;
        assert(encode_scalar(h[0] as u32).len() == m);
        assert(sbytes(h.skip(1)).take(b.len() - m) =~= sbytes(n.skip(1))) by {
            assert(sbytes(h.skip(1)) =~= a.skip(m));
            assert(sbytes(n.skip(1)) =~= b.skip(m));
            assert(a.skip(m).take(b.len() - m) =~= a.take(b.len() as int).skip(m));
        }
        lemma_prefix_bound(h.skip(1), n.skip(1));
        encode_utf8_valid_utf8(h.skip(1));
        is_char_boundary_start_end_of_seq(sbytes(h.skip(1)));
    }
}
pub proof fn lemma_occ_bounds(s: Seq<char>, n: Seq<char>, i: int)
    requires n.len() > 0, 0 <= i, i + sbytes(n).len() <= sbytes(s).len(), sbytes(s).subrange(i, i + sbytes(n).len()) == sbytes(n)
    ensures is_bound(s, i), is_bound(s, i + sbytes(n).len()), sbytes(n).len() >= 1
{
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(n);
    lemma_bound_cons(n, 0);
    lemma_scalar_bytes(n[0]);
    is_char_boundary_start_end_of_seq(sbytes(n));
    is_char_boundary_iff_not_is_continuation_byte(sbytes(n), 0);
    is_char_boundary_iff_not_is_continuation_byte(sbytes(s), i);
    assert(sbytes(s)[i] == sbytes(s).subrange(i, i + sbytes(n).len())[0]);
    let k = lemma_bound_split(s, i);
    let t = s.skip(k as int);
    assert(sbytes(t).take(sbytes(n).len() as int) =~= sbytes(n));
    lemma_prefix_bound(t, n);
    lemma_bound_shift(s, k as int, i, sbytes(n).len() as int);
}
pub proof fn lemma_bound_shift(s: Seq<char>, k: int, i: int, j: int)
    requires 0 <= k <= s.len(), sbytes(s.take(k)).len() == i, is_bound(s.skip(k), j)
    ensures is_bound(s, i + j)
    decreases k
{
    encode_utf8_valid_utf8(s);
    lemma_encode_nil();
    if k == 0 { assert(s.take(0) =~= Seq::<char>::empty()); assert(s.skip(0) =~= s); }
    else {
        let n = encode_scalar(s[0] as u32).len();
        lemma_encode_cons(s[0], s.skip(1).take(k - 1));
        assert(seq![s[0]] + s.skip(1).take(k - 1) =~= s.take(k));
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        lemma_bound_shift(s.skip(1), k - 1, i - n, j);
        lemma_bound_cons(s, i + j);
        lemma_scalar_bytes(s[0]);
        encode_utf8_valid_utf8(s.skip(k));
        lemma_bound_split(s.skip(1), i - n + j);
        lemma_bound_split(s.skip(k), j);
    }
}
/// positions in a part of a text
pub proof fn lemma_bound_sub(s: Seq<char>, a: int, t: Seq<char>, j: int)
    requires is_bound(s, a), sbytes(t) == sbytes(s).skip(a), is_bound(t, j)
    ensures is_bound(s, a + j)
{
    let k = lemma_bound_split(s, a);
    lemma_encode_inj(t, s.skip(k as int));
    lemma_bound_shift(s, k as int, a, j);
}
pub proof fn lemma_delim(s: Seq<char>, p: int, rem: Seq<char>, a: Seq<char>, b: Seq<char>, esc: bool)
    requires is_bound(s, p), sbytes(rem).len() <= sbytes(s).len() - p, sbytes(rem) == sbytes(s).subrange(p, p + sbytes(rem).len()), a.len() > 0, b.len() > 0
    ensures 0 <= p <= sbytes(s).len(), match next_delim(sbytes(rem), sbytes(a), sbytes(b), esc) {
        Some((t, i)) => 0 <= i && dlen(t, sbytes(a), sbytes(b)) >= 1 && i + dlen(t, sbytes(a), sbytes(b)) <= sbytes(rem).len()
            && is_bound(s, p + i) && is_bound(s, p + i + dlen(t, sbytes(a), sbytes(b))),
        None => true,
    }
{
    lemma_bound_split(s, p);
    lemma_first_occ(sbytes(rem), sbytes(a), esc, 0);
    lemma_first_occ(sbytes(rem), sbytes(b), esc, 0);
    match next_delim(sbytes(rem), sbytes(a), sbytes(b), esc) {
        Some((t, i)) => {
            let n = if t == MathDisplay::Inline { a } else { b };
            assert(sbytes(s).subrange(p + i, p + i + sbytes(n).len()) =~= sbytes(rem).subrange(i, i + sbytes(n).len()));
            lemma_occ_bounds(s, n, p + i);
        }
        None => {}
    }
}
pub proof fn lemma_weave_ext(a: Seq<Item>, b: Seq<Item>, calls: Seq<Call>)
    requires calls.len() <= a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> a[k] == b[k]
    ensures weave(a, calls) == weave(b, calls)
    decreases calls.len()
{ if calls.len() > 0 { lemma_weave_ext(a, b, calls.drop_last()); } }
// ---- trusted: memmem -------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Finder<'n> { _p: &'n str }
impl<'n> Finder<'n> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub open spec fn needle(&self) -> Seq<u8> { sbytes(self.text()) }
    #[verifier::external_body]
    pub fn new(n: &'n str) -> (r: Self) ensures r.text() == n@ { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, h: &[u8]) -> (r: Option<usize>)
        ensures match r { Some(i) => first_occ(h@, self.needle(), false, 0) == Some(i as int), None => first_occ(h@, self.needle(), false, 0).is_none() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct LatexError { k: u8 }
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// `input.char_indices()`
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> #[trigger] r@[k] == (sbytes(s@.take(k)).len() as usize, s@[k])
{ s.char_indices().collect() }

// ---- code under contract ---------------------------------------------------------------------------
//@file crates/math-core-cli/src/replace.rs
//@extract struct ConversionError
//@extract enum ConvErrKind
//@extract struct Replacer
//@extract const INITIAL_WINDOW

pub open spec fn lines(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { lines(s.drop_last()) + (if s.last() == '\n' { 1nat } else { 0nat }) } }
pub open spec fn since(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || s.last() == '\n' { 0 } else { since(s.drop_last()) + 1 } }
/// the number of characters that start before byte `loc`
pub open spec fn before(s: Seq<char>, loc: int, k: int) -> bool {
    0 <= k <= s.len() && (k > 0 ==> sbytes(s.take(k - 1)).len() < loc) && (k < s.len() ==> loc <= sbytes(s.take(k)).len())
}
pub proof fn lemma_lines(s: Seq<char>) ensures lines(s) <= s.len(), since(s) <= s.len() decreases s.len() { if s.len() > 0 { lemma_lines(s.drop_last()); } }
/// a position between two characters is preceded by exactly the characters before it
pub proof fn lemma_before_bound(s: Seq<char>, loc: int, k: int)
    requires before(s, loc, k), is_bound(s, loc)
    ensures sbytes(s.take(k)).len() == loc, sbytes(s.take(k)) == sbytes(s).take(loc)
{
    let j = lemma_bound_split(s, loc);
    assert(sbytes(s).take(loc).len() == loc);
    if j < k { if j < k - 1 { lemma_take_mono(s, j as int, k - 1); } }
    else if k < j { lemma_take_mono(s, k, j as int); }
}
//@fn line_and_col
//@vis pub
//@ret r
//@subst input.char_indices() ==> vx_char_indices(input)
//@spec
    requires is_bound(input@, loc as int)
    ensures exists|k: int| 0 <= k <= input@.len() && sbytes(#[trigger] input@.take(k)) == sbytes(input@).take(loc as int)
        && r.0 == 1 + lines(input@.take(k)) && r.1 == 1 + since(input@.take(k))
//@start
    broadcast use axiom_str_len;
    proof { lemma_chars_le(input@); }
    let ghost mut done = 0int;
    proof { assert(input@.take(0) =~= Seq::<char>::empty()); }
//@forvar 0 it
//@loop 0
    invariant_except_break
        done == it.index@,
    invariant
        it.seq().len() == input@.len(), it.seq().len() < usize::MAX,
        forall|k: int| 0 <= k < input@.len() ==> #[trigger] it.seq()[k] == (sbytes(input@.take(k)).len() as usize, input@[k]),
        sbytes(input@).len() < usize::MAX,
        0 <= done <= input@.len(),
        done > 0 ==> sbytes(input@.take(done - 1)).len() < loc,
        line == 1 + lines(input@.take(done)), col == 1 + since(input@.take(done)),
        line <= 1 + done, col <= 1 + done,
    ensures
        done < input@.len() ==> loc <= sbytes(input@.take(done)).len(),
//@loopstart 0
    proof {
        assert(it.seq()[done] == (i, ch));
        lemma_bound_take(input@, done);
        assert(input@.take(done + 1).drop_last() =~= input@.take(done));
        assert(input@.take(done + 1).last() == ch);
        lemma_lines(input@.take(done + 1));
        lemma_lines(input@.take(done));
    }
//@loopend 0
    proof { done = done + 1; }
//@end
    proof { lemma_before_bound(input@, loc as int, done); }
//@endfn
pub proof fn lemma_chars_le(s: Seq<char>) ensures s.len() <= sbytes(s).len() decreases s.len()
{
    lemma_encode_nil();
    if s.len() > 0 { lemma_bound_cons(s, 0); lemma_scalar_bytes(s[0]); lemma_chars_le(s.skip(1)); }
}

impl<'args> Replacer<'args> {
    pub open spec fn cfg(&self) -> Cfg {
        Cfg { oi: self.opening_finders.0.needle(), ob: self.opening_finders.1.needle(), ci: self.closing_finders.0.needle(), cb: self.closing_finders.1.needle(), esc: self.ignore_escaped_delim }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.opening_lengths.0 == self.cfg().oi.len() && self.opening_lengths.1 == self.cfg().ob.len()
        &&& self.closing_lengths.0 == self.cfg().ci.len() && self.closing_lengths.1 == self.cfg().cb.len()
        &&& self.opening_finders.0.text().len() > 0 && self.opening_finders.1.text().len() > 0
        &&& self.closing_finders.0.text().len() > 0 && self.closing_finders.1.text().len() > 0
        &&& self.cfg().oi.len() <= isize::MAX && self.cfg().ob.len() <= isize::MAX && self.cfg().ci.len() <= isize::MAX && self.cfg().cb.len() <= isize::MAX
        &&& self.closing_identical == (self.cfg().ci == self.cfg().cb)
    }
//@fn Replacer::new
//@vis pub
//@ret r
//@spec
    requires inline_delim.0@.len() > 0, inline_delim.1@.len() > 0, block_delim.0@.len() > 0, block_delim.1@.len() > 0,
    ensures r.wf(), r.cfg() == (Cfg { oi: sbytes(inline_delim.0@), ob: sbytes(block_delim.0@), ci: sbytes(inline_delim.1@), cb: sbytes(block_delim.1@), esc: ignore_escaped_delim })
//@start
    broadcast use axiom_str_len;
    proof { if sbytes(inline_delim.1@) == sbytes(block_delim.1@) { lemma_encode_inj(inline_delim.1@, block_delim.1@); } }
//@endfn
//@fn Replacer::replace
//@vis pub
//@opt strslice
//@attr #[verifier::rlimit(100)]
//@attr #[verifier::loop_isolation(false)]
//@sig fn replace<'source, 'buf, F, S>(&'buf mut self, input: &'source str, state: &'buf mut S, f: F) -> (r: Result<String, ConversionError<'source, 'buf>>) where F: VxConv<S>, S: VxState, 'source: 'buf
//@subst f(state, &mut result, replaced, open_typ) ==> f.vx_call(state, &mut result, replaced, open_typ)
//@spec
    requires old(self).wf()
    ensures ({
        let (items, end) = run(old(self).cfg(), sbytes(input@), 0);
        let n0 = old(state).log().len();
        let log = final(state).log();
        let calls = log.skip(n0 as int);
        &&& log.len() >= n0 && log.take(n0 as int) == old(state).log()
        &&& follows(items, calls)
        &&& match r {
            // everything outside is copied, every formula is converted once
            Ok(s) => calls.len() == items.len() && all_ok(calls) && (match end { End::Rest(t) => sbytes(s@) == weave(items, calls) + t, _ => false }),
            Err(e) => e.2 == input && (match e.1 {
                ConvErrKind::LatexError(_, text) => calls.len() > 0 && !calls.last().ok && all_ok(calls.drop_last())
                    && e.0 == items[calls.len() - 1].start && sbytes(text@) == items[calls.len() - 1].content,
                ConvErrKind::UnclosedDelimiter => calls.len() == items.len() && all_ok(calls) && end == End::Unclosed(e.0 as int),
                ConvErrKind::NestedDelimiters => calls.len() == items.len() && all_ok(calls) && end == End::Nested(e.0 as int),
                ConvErrKind::MismatchedDelimiters(c) => calls.len() == items.len() && all_ok(calls) && end == End::Mismatch(e.0 as int, c as int),
            }),
        }
    })
//@start
    broadcast use {axiom_str_len, lemma_sbytes_concat};
    let ghost t = sbytes(input@);
    let ghost c = self.cfg();
    let ghost n0 = state.log().len() as int;
    let ghost log0 = state.log();
    let ghost all = run(c, t, 0);
    let ghost mut done = Seq::<Item>::empty();
    proof {
        lemma_encode_nil(); encode_utf8_valid_utf8(input@); is_char_boundary_start_end_of_seq(t);
        assert(log0.skip(n0) =~= Seq::<Call>::empty());
        assert(log0.take(n0) =~= log0);
        assert(done + run(c, t, 0).0 =~= all.0);
    }
//@loop 0
    invariant
        current_pos <= t.len(), is_bound(input@, current_pos as int),
        self.wf(), self.cfg() == c,
        state.log().len() == n0 + done.len(), state.log().take(n0) == log0,
        follows(done, state.log().skip(n0)), all_ok(state.log().skip(n0)),
        all.0 == done + run(c, t, current_pos as int).0, all.1 == run(c, t, current_pos as int).1,
        sbytes(result@) == weave(done, state.log().skip(n0)),
    decreases t.len() - current_pos
//@loopstart 0
    let ghost cur = current_pos as int;
    let ghost res0 = sbytes(result@);
    let ghost st0 = state.log();
    let ghost calls0 = st0.skip(n0);
    proof {
        reveal(run);
        assert forall|l: Seq<Call>| l.len() == st0.len() + 1 && #[trigger] l.drop_last() == st0 implies
            l.skip(n0).drop_last() == calls0 && l.skip(n0).last() == l.last() && l.take(n0) == log0 && l.skip(n0) == calls0.push(l.last()) by {
            assert(l.skip(n0).drop_last() =~= l.drop_last().skip(n0));
            assert(l.take(n0) =~= l.drop_last().take(n0));
            assert(l.skip(n0) =~= calls0.push(l.last()));
        }
    }
//@afterlet opening
    proof {
        assert(sbytes(remaining@) =~= t.subrange(cur, cur + sbytes(remaining@).len()));
        assert(sbytes(remaining@) =~= t.skip(cur));
        lemma_delim(input@, cur, remaining@, self.opening_finders.0.text(), self.opening_finders.1.text(), c.esc);
        if opening.is_none() { assert(done =~= all.0); }
    }
//@afterlet closing
    proof {
        assert(sbytes(remaining@) =~= t.subrange(start as int, start + sbytes(remaining@).len()));
        assert(sbytes(remaining@) =~= t.skip(start as int));
        lemma_delim(input@, start as int, remaining@, self.closing_finders.0.text(), self.closing_finders.1.text(), c.esc);
        assert(done + Seq::<Item>::empty() =~= done);
    }
//@afterlet content
    proof {
        lemma_first_occ(sbytes(content@), c.oi, c.esc, 0);
        lemma_first_occ(sbytes(content@), c.ob, c.esc, 0);
    }
//@afterlet replaced
    let ghost item = Item { gap: t.subrange(cur, open_pos as int), content: sbytes(replaced@), disp: open_typ, start: start as int };
    proof {
        let rest = run(c, t, end + closing_delim_len).0;
        assert(run(c, t, cur).0 == seq![item] + rest);
        assert(all.0 =~= done.push(item) + rest);
        assert(sbytes(result@) == res0 + item.gap);
        lemma_weave_ext(done, done.push(item), calls0);
    }
//@loopend 0
    proof {
        let l = state.log();
        assert(l.drop_last() == st0);
        assert(l.skip(n0).drop_last() == calls0);
        done = done.push(item);
    }
//@afterloop 0
    proof { reveal(run); assert(done + Seq::<Item>::empty() =~= done); assert(state.log().skip(n0).len() == done.len()); }
//@endfn
//@fn Replacer::find_delimiter_position
//@vis pub
//@opt strslice
//@ret r
//@spec
    requires finder.text().len() > 0, input@.len() <= isize::MAX
    ensures first_occ(input@, finder.needle(), self.ignore_escaped_delim, 0) == (match r { Some(i) => Some(i as int), None => None })
//@start
    let ghost n = finder.needle();
    proof { lemma_tails(input@, n); lemma_bound_cons(finder.text(), 0); lemma_scalar_bytes(finder.text()[0]); }
//@loop 0
    invariant
        self.ignore_escaped_delim, n == finder.needle(), n.len() > 0, tails(input@, n),
        0 <= offset <= input@.len(), input@.len() <= isize::MAX,
        forall|j: int| 0 <= j < offset ==> !occ(input@, n, true, j),
    ensures
        forall|j: int| 0 <= j ==> !occ(input@, n, true, j),
    decreases input@.len() - offset
//@loopstart 0
    proof {
        lemma_first_occ(input@.skip(offset as int), n, false, 0);
        lemma_tail_occ(input@, n, offset as int);
    }
//@afterlet absolute_pos
    proof {
        if !(absolute_pos > 0 && input@[absolute_pos - 1] == 92) { lemma_first_occ_is(input@, n, true, Some(absolute_pos as int)); }
    }
//@afterloop 0
    proof { lemma_first_occ_is(input@, n, true, None); }
//@endfn
//@fn Replacer::find_next_delimiter
//@attr #[verifier::loop_isolation(false)]
//@vis pub
//@opt strslice
//@attr #[verifier::rlimit(60)]
//@ret r
//@spec
    requires self.wf()
    ensures ({
        let c = self.cfg();
        let e = if opening { next_delim(sbytes(input@), c.oi, c.ob, c.esc) } else { next_delim(sbytes(input@), c.ci, c.cb, c.esc) };
        e == (match r { Some((t, i)) => Some((t, i as int)), None => None })
    })
//@start
    broadcast use axiom_str_len;
    let ghost full = sbytes(input@);
    let ghost na = if opening { self.cfg().oi } else { self.cfg().ci };
    let ghost nb = if opening { self.cfg().ob } else { self.cfg().cb };
    let ghost esc = self.ignore_escaped_delim;
//@loop 0
    invariant
        self.wf(), esc == self.ignore_escaped_delim,
        input@ == full, full.len() <= isize::MAX, window > 0,
        inline_finder.needle() == na, block_finder.needle() == nb, inline_len == na.len(), block_len == nb.len(),
        inline_finder.text().len() > 0, block_finder.text().len() > 0, na.len() <= isize::MAX, nb.len() <= isize::MAX,
        na == (if opening { self.cfg().oi } else { self.cfg().ci }), nb == (if opening { self.cfg().ob } else { self.cfg().cb }),
        esc == self.cfg().esc,
    decreases (if window < full.len() { full.len() - window } else { 0 })
//@loopstart 0
    let ghost w0 = window;
//@afterlet haystack
    proof { assert(haystack@ =~= full.take(end as int)); lemma_window_first(full, na, esc, end as int); lemma_window_first(full, nb, esc, end as int);
        lemma_first_occ(full, na, esc, 0); lemma_first_occ(full, nb, esc, 0); }
//@endfn
}
/// What a window tells about the text.
pub proof fn lemma_window_first(h: Seq<u8>, n: Seq<u8>, esc: bool, w: int)
    requires 0 <= w <= h.len(), n.len() > 0
    ensures match first_occ(h.take(w), n, esc, 0) {
        Some(i) => first_occ(h, n, esc, 0) == Some(i) && i + n.len() <= w,
        None => match first_occ(h, n, esc, 0) { Some(i) => i + n.len() > w, None => true },
    }
{
    lemma_first_occ(h.take(w), n, esc, 0);
    lemma_first_occ(h, n, esc, 0);
    assert forall|i: int| occ(h.take(w), n, esc, i) <==> (#[trigger] occ(h, n, esc, i) && i + n.len() <= w) by { lemma_window(h, n, esc, w, i); }
    assert forall|i: int| #[trigger] occ(h.take(w), n, esc, i) <==> (occ(h, n, esc, i) && i + n.len() <= w) by { lemma_window(h, n, esc, w, i); }
    match first_occ(h.take(w), n, esc, 0) {
        Some(i) => { assert(occ(h, n, esc, i)); match first_occ(h, n, esc, 0) { Some(r) => { if r < i { assert(occ(h.take(w), n, esc, r)); } } None => {} } }
        None => { match first_occ(h, n, esc, 0) { Some(r) => { if r + n.len() <= w { assert(occ(h.take(w), n, esc, r)); } } None => {} } }
    }
}
pub open spec fn tails(h: Seq<u8>, n: Seq<u8>) -> bool {
    forall|o: int| 0 <= o <= h.len() && (#[trigger] first_occ(h.skip(o), n, false, 0)).is_none() ==> forall|j: int| o <= j ==> !occ(h, n, true, j)
}
pub proof fn lemma_tails(h: Seq<u8>, n: Seq<u8>)
    ensures tails(h, n)
{
    assert forall|o: int| 0 <= o <= h.len() && (#[trigger] first_occ(h.skip(o), n, false, 0)).is_none() implies forall|j: int| o <= j ==> !occ(h, n, true, j) by {
        lemma_first_occ(h.skip(o), n, false, 0);
        lemma_tail_occ(h, n, o);
    }
}
pub proof fn lemma_tail_occ(h: Seq<u8>, n: Seq<u8>, o: int)
    requires 0 <= o <= h.len()
    ensures forall|j: int| 0 <= j ==> (#[trigger] occ(h.skip(o), n, false, j) <==> occ(h, n, false, o + j)),
        forall|j: int| o <= j ==> (#[trigger] occ(h, n, true, j) ==> occ(h.skip(o), n, false, j - o)),
        forall|j: int| 0 <= j ==> (#[trigger] occ(h.skip(o), n, false, j) ==> occ(h, n, true, o + j) || (o + j > 0 && h[o + j - 1] == 92))
{
    assert forall|j: int| 0 <= j implies (#[trigger] occ(h.skip(o), n, false, j) <==> occ(h, n, false, o + j)) by {
        if j + n.len() <= h.len() - o { assert(h.skip(o).subrange(j, j + n.len()) =~= h.subrange(o + j, o + j + n.len())); }
    }
    assert forall|j: int| o <= j && #[trigger] occ(h, n, true, j) implies occ(h.skip(o), n, false, j - o) by {
        assert(h.skip(o).subrange(j - o, j - o + n.len()) =~= h.subrange(j, j + n.len()));
    }
}

} // verus!
fn main() {}
