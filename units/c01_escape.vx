//@include prelude.vx
//@include utf8.vx
//@include content.vx

// ---------------------------------------------------------------------------------------------
// Specification: escaping and reading back, on bytes
// ---------------------------------------------------------------------------------------------
pub open spec fn amp() -> Seq<u8> { seq![38u8, 97, 109, 112, 59] }      // &amp;
pub open spec fn lt() -> Seq<u8> { seq![38u8, 108, 116, 59] }           // &lt;
pub open spec fn gt() -> Seq<u8> { seq![38u8, 103, 116, 59] }           // &gt;
pub open spec fn quot() -> Seq<u8> { seq![38u8, 113, 117, 111, 116, 59] } // &quot;

/// element content: & < >
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if b == 38 { amp() } else if b == 60 { lt() } else if b == 62 { gt() } else { seq![b] }
}
/// attribute value: & "
pub open spec fn esca1(b: u8) -> Seq<u8> {
    if b == 38 { amp() } else if b == 34 { quot() } else { seq![b] }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc1(s.last()) }
}
pub open spec fn esca(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { esca(s.drop_last()) + esca1(s.last()) }
}
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
/// Reading back: the references & < > and the double quote are replaced, left to right.
pub open spec fn decode(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if starts(s, amp()) { seq![38u8] + decode(s.skip(5)) }
    else if starts(s, lt()) { seq![60u8] + decode(s.skip(4)) }
    else if starts(s, gt()) { seq![62u8] + decode(s.skip(4)) }
    else if starts(s, quot()) { seq![34u8] + decode(s.skip(6)) }
    else { seq![s[0]] + decode(s.skip(1)) }
}

// ---- lemmas -----------------------------------------------------------------------------------
pub proof fn lemma_esc_concat(a: Seq<u8>, b: Seq<u8>)
    ensures esc(a + b) == esc(a) + esc(b), esca(a + b) == esca(a) + esca(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc(a) + esc(b) =~= esc(a)); assert(esca(a) + esca(b) =~= esca(a)); }
    else {
        lemma_esc_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(esc(a + b) =~= esc(a) + (esc(b.drop_last()) + esc1(b.last())));
        assert(esca(a + b) =~= esca(a) + (esca(b.drop_last()) + esca1(b.last())));
    }
}
pub proof fn lemma_esc_one(b: u8)
    ensures esc(seq![b]) == esc1(b), esca(seq![b]) == esca1(b)
{
    reveal_with_fuel(esc, 2);
    reveal_with_fuel(esca, 2);
    assert(seq![b].drop_last() =~= seq![]);
    assert(esc(seq![b]) =~= esc1(b));
    assert(esca(seq![b]) =~= esca1(b));
}
/// A stretch with nothing to escape is copied.
pub proof fn lemma_esc_plain(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != 38 && s[i] != 60 && s[i] != 62
    ensures esc(s) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_esc_plain(s.drop_last()); assert(esc(s) =~= s); }
}
pub proof fn lemma_starts_cat(p: Seq<u8>, q: Seq<u8>)
    ensures starts(p + q, p), (p + q).skip(p.len() as int) == q
{ assert((p + q).subrange(0, p.len() as int) =~= p); assert((p + q).skip(p.len() as int) =~= q); }
pub proof fn lemma_decode_cons(b: u8, r: Seq<u8>)
    ensures decode(esc1(b) + r) == seq![b] + decode(r), decode(esca1(b) + r) == seq![b] + decode(r)
{
    let s = esc1(b) + r;
    let a = esca1(b) + r;
    lemma_starts_cat(esc1(b), r);
    lemma_starts_cat(esca1(b), r);
    if b == 38 { }
    else {
        assert(a[0] == esca1(b)[0]);
        assert(s[0] == esc1(b)[0]);
        assert(!starts(a, amp())) by { if starts(a, amp()) { assert(a[0] == amp()[0]); assert(a.subrange(0, 5)[1] == amp()[1]); assert(a[1] == amp()[1]); } }
        assert(!starts(s, amp())) by { if starts(s, amp()) { assert(s[0] == amp()[0]); assert(s.subrange(0, 5)[1] == amp()[1]); assert(s[1] == amp()[1]); } }
        if b != 34 {
            assert(!starts(a, lt())) by { if starts(a, lt()) { assert(a.subrange(0, 4)[0] == 38); } }
            assert(!starts(a, gt())) by { if starts(a, gt()) { assert(a.subrange(0, 4)[0] == 38); } }
            assert(!starts(a, quot())) by { if starts(a, quot()) { assert(a.subrange(0, 6)[0] == 38); } }
        } else {
            assert(!starts(a, lt())) by { if starts(a, lt()) { assert(a.subrange(0, 4)[1] == 108); assert(a[1] == quot()[1]); } }
            assert(!starts(a, gt())) by { if starts(a, gt()) { assert(a.subrange(0, 4)[1] == 103); assert(a[1] == quot()[1]); } }
        }
        if b == 60 { }
        else if b == 62 { assert(!starts(s, lt())) by { if starts(s, lt()) { assert(s.subrange(0, 4)[1] == 108); assert(s[1] == gt()[1]); } } }
        else {
            assert(!starts(s, lt())) by { if starts(s, lt()) { assert(s.subrange(0, 4)[0] == 38); } }
            assert(!starts(s, gt())) by { if starts(s, gt()) { assert(s.subrange(0, 4)[0] == 38); } }
            assert(!starts(s, quot())) by { if starts(s, quot()) { assert(s.subrange(0, 6)[0] == 38); } }
        }
    }
}
pub proof fn lemma_first(s: Seq<u8>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]) + esc(s.skip(1)), esca(s) == esca1(s[0]) + esca(s.skip(1))
{
    lemma_esc_concat(seq![s[0]], s.skip(1));
    lemma_esc_one(s[0]);
    assert(seq![s[0]] + s.skip(1) =~= s);
}
/// PROPERTY C01 (reversible): decoding the escaped text gives the text back.
pub proof fn theorem_decode_esc(s: Seq<u8>)
    ensures decode(esc(s)) == s, decode(esca(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        theorem_decode_esc(s.skip(1));
        lemma_first(s);
        lemma_decode_cons(s[0], esc(s.skip(1)));
        lemma_decode_cons(s[0], esca(s.skip(1)));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// Every `&` at position i starts one of the references.
pub open spec fn amp_ok(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == 38 ==> starts(s.skip(i), amp()) || starts(s.skip(i), lt()) || starts(s.skip(i), gt()) || starts(s.skip(i), quot())
}
/// PROPERTY C01 (no raw markup): no `<`, `>` in content, no `"` in the attribute, each `&` starts a reference.
pub proof fn theorem_no_raw(s: Seq<u8>)
    ensures
        forall|i: int| 0 <= i < esc(s).len() ==> #[trigger] esc(s)[i] != 60 && esc(s)[i] != 62,
        forall|i: int| 0 <= i < esca(s).len() ==> #[trigger] esca(s)[i] != 34,
        amp_ok(esc(s)), amp_ok(esca(s)),
    decreases s.len()
{
    if s.len() > 0 {
        theorem_no_raw(s.skip(1));
        lemma_first(s);
        lemma_amp_cons(esc1(s[0]), esc(s.skip(1)));
        lemma_amp_cons(esca1(s[0]), esca(s.skip(1)));
    }
}
pub proof fn lemma_amp_cons(p: Seq<u8>, r: Seq<u8>)
    requires amp_ok(r), p == amp() || p == lt() || p == gt() || p == quot() || (p.len() == 1 && p[0] != 38)
    ensures amp_ok(p + r)
{
    let s = p + r;
    lemma_starts_cat(p, r);
    assert forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == 38 implies starts(s.skip(i), amp()) || starts(s.skip(i), lt()) || starts(s.skip(i), gt()) || starts(s.skip(i), quot()) by {
        if i >= p.len() { assert(s[i] == r[i - p.len()]); assert(s.skip(i) =~= r.skip(i - p.len())); }
        else { assert(s[i] == p[i]); assert(i == 0); assert(s.skip(0) =~= s); }
    }
}
pub proof fn vx_all_inj(b: Seq<char>)
    ensures forall|a: Seq<char>| #[trigger] encode_utf8(a) == encode_utf8(b) ==> a == b
{ assert forall|a: Seq<char>| #[trigger] encode_utf8(a) == encode_utf8(b) implies a == b by { lemma_encode_inj(a, b); } }
/// Escaping the bytes of a text = the bytes of a text (so the output is valid UTF-8).
pub proof fn lemma_esc_utf8(s: Seq<char>) -> (r: (Seq<char>, Seq<char>))
    ensures encode_utf8(r.0) == esc(encode_utf8(s)), encode_utf8(r.1) == esca(encode_utf8(s)), r.0 == content(s),
    decreases s.len()
{
    if s.len() == 0 { lemma_encode_nil(); (s, s) }
    else {
        let (a, b) = lemma_esc_utf8(s.drop_last());
        let c = s.last();
        let e = encode_scalar(c as u32);
        assert(s =~= s.drop_last().push(c));
        encode_utf8_push(s.drop_last(), c);
        lemma_scalar_bytes(c);
        lemma_esc_concat(encode_utf8(s.drop_last()), e);
        let ra = if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '<' { seq!['&', 'l', 't', ';'] } else if c == '>' { seq!['&', 'g', 't', ';'] } else { seq![c] };
        let rb = if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] } else { seq![c] };
        reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;");
        assert(ra =~= content1(c));
        encode_utf8_concat(a, ra);
        encode_utf8_concat(b, rb);
        if c as u32 <= 0x7f { lemma_esc_one(c as u8); }
        else {
            assert forall|i: int| 0 <= i < e.len() implies e[i] != 38 && e[i] != 60 && e[i] != 62 && e[i] != 34 by { assert(e[i] >= 0x80); }
            lemma_esc_plain(e);
            lemma_esca_plain(e);
        }
        lemma_encode_nil();
        encode_utf8_push(Seq::<char>::empty(), c);
        assert(Seq::<char>::empty().push(c) =~= seq![c]);
        assert(encode_utf8(seq![c]) =~= e);
        is_ascii_chars_encode_utf8(seq!['&', 'a', 'm', 'p', ';']);
        assert(encode_utf8(seq!['&', 'a', 'm', 'p', ';']) =~= amp());
        is_ascii_chars_encode_utf8(seq!['&', 'l', 't', ';']);
        assert(encode_utf8(seq!['&', 'l', 't', ';']) =~= lt());
        is_ascii_chars_encode_utf8(seq!['&', 'g', 't', ';']);
        assert(encode_utf8(seq!['&', 'g', 't', ';']) =~= gt());
        is_ascii_chars_encode_utf8(seq!['&', 'q', 'u', 'o', 't', ';']);
        assert(encode_utf8(seq!['&', 'q', 'u', 'o', 't', ';']) =~= quot());
        assert(encode_utf8(ra) =~= esc(e));
        assert(encode_utf8(rb) =~= esca(e));
        (a + ra, b + rb)
    }
}
pub proof fn lemma_esca_plain(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != 38 && s[i] != 34
    ensures esca(s) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_esca_plain(s.drop_last()); assert(esca(s) =~= s); }
}

/// One more stretch: plain bytes up to a special one.
pub proof fn lemma_step(pre: Seq<u8>, full: Seq<u8>, k: int, index: int)
    requires 0 <= k <= full.len(), 0 <= index < full.len() - k,
        forall|j: int| 0 <= j < index ==> #[trigger] full.skip(k)[j] != 38 && full.skip(k)[j] != 60 && full.skip(k)[j] != 62,
    ensures pre + esc(full.take(k)) + full.skip(k).take(index) + esc1(full.skip(k)[index]) == pre + esc(full.take(k + index + 1))
{
    let t = full.take(k);
    let b = full.skip(k).take(index);
    let x = full.skip(k)[index];
    assert forall|j: int| 0 <= j < b.len() implies b[j] != 38 && b[j] != 60 && b[j] != 62 by { assert(b[j] == full.skip(k)[j]); }
    lemma_esc_plain(b);
    lemma_esc_one(x);
    lemma_esc_concat(t, b);
    lemma_esc_concat(t + b, seq![x]);
    assert(full.take(k + index + 1) =~= t + b + seq![x]);
    assert(pre + esc(t) + b + esc1(x) =~= pre + (esc(t) + b + esc1(x)));
}

// ---- trusted: memchr, String::as_mut_vec, str::bytes -------------------------------------------
#[verifier::external_body]
pub fn vx_memchr3(a: u8, b: u8, c: u8, hay: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < hay@.len() && (hay@[i as int] == a || hay@[i as int] == b || hay@[i as int] == c)
            && forall|j: int| 0 <= j < i ==> #[trigger] hay@[j] != a && hay@[j] != b && hay@[j] != c,
        None => forall|j: int| 0 <= j < hay@.len() ==> #[trigger] hay@[j] != a && hay@[j] != b && hay@[j] != c,
    }
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn vx_as_mut_vec(s: &mut String) -> (r: &mut Vec<u8>)
    ensures r@ == sbytes(old(s)@), valid_utf8(final(r)@) ==> sbytes(final(s)@) == final(r)@
{ unsafe { s.as_mut_vec() } }
#[verifier::external_body]
pub fn vx_bytes(s: &str) -> (r: Vec<u8>)
    ensures r@ == sbytes(s@)
{ s.bytes().collect() }

// ---- code under contract ------------------------------------------------------------------------
//@file crates/math-core/src/html_utils.rs
//@subst memchr::memchr3 ==> vx_memchr3
//@subst output.as_mut_vec() ==> vx_as_mut_vec(output)
//@subst input.bytes() ==> vx_bytes(input)

//@fn escape_html_content
//@vis pub
//@spec
    ensures sbytes(final(output)@) == sbytes(old(output)@) + esc(sbytes(input@)), final(output)@ == old(output)@ + content(input@)
//@start
    let ghost out0 = output@;
    let ghost inp = input@;
//@beforeloop 0
    let ghost full = haystack@;
    let ghost pre = output@;
    proof { assert(full.subrange(0, 0) =~= Seq::<u8>::empty()); assert(full.skip(0) =~= full); assert(pre + esc(full.subrange(0, 0)) =~= pre); }
//@loop 0
    invariant
        haystack@.len() <= full.len(),
        haystack@ == full.skip(full.len() - haystack@.len()),
        output@ == pre + esc(full.take(full.len() - haystack@.len())),
    ensures
        forall|j: int| 0 <= j < haystack@.len() ==> #[trigger] haystack@[j] != 38 && haystack@[j] != 60 && haystack@[j] != 62,
    decreases haystack@.len()
//@loopstart 0
    let ghost h0 = haystack@;
    let ghost o0 = output@;
    let ghost k = full.len() - haystack@.len();
//@loopend 0
    proof {
        lemma_step(pre, full, k, index as int);
        assert(output@ =~= o0 + full.skip(k).take(index as int) + esc1(full.skip(k)[index as int]));
        assert(haystack@ =~= full.skip(full.len() - haystack@.len()));
    }
//@afterloop 0
    let ghost tl = haystack@;
//@end
    proof {
        let k = full.len() - tl.len();
        lemma_esc_plain(tl);
        lemma_esc_concat(full.take(k), tl);
        assert(full.take(k) + tl =~= full);
        assert(output@ =~= sbytes(out0) + esc(full));
        let r = lemma_esc_utf8(inp);
        encode_utf8_concat(out0, r.0);
        encode_utf8_valid_utf8(out0 + r.0);
        vx_all_inj(out0 + r.0);
    }
//@endfn

//@fn escape_double_quoted_html_attribute
//@vis pub
//@spec
    ensures sbytes(final(output)@) == sbytes(old(output)@) + esca(sbytes(input@))
//@start
    let ghost out0 = output@;
    let ghost inp = input@;
//@beforeloop 0
    let ghost pre = output@;
    proof { assert(pre + esca(Seq::<u8>::empty()) =~= pre); }
//@forvar 0 it
//@loop 0
    invariant
        it.seq() == sbytes(inp),
        output@ == pre + esca(sbytes(inp).take(it.index@)),
//@loopend 0
    proof {
        lemma_esc_one(ch);
        let k = it.index@;
        lemma_esc_concat(sbytes(inp).take(k), seq![ch]);
        assert(sbytes(inp).take(k + 1) =~= sbytes(inp).take(k) + seq![ch]);
        assert(output@ =~= pre + esca(sbytes(inp).take(k + 1)));
    }
//@end
    proof {
        assert(sbytes(inp).take(sbytes(inp).len() as int) =~= sbytes(inp));
        assert(output@ =~= sbytes(out0) + esca(sbytes(inp)));
        let r = lemma_esc_utf8(inp);
        encode_utf8_concat(out0, r.1);
        encode_utf8_valid_utf8(out0 + r.1);
    }
//@endfn


// ---- the two places that embed source text ------------------------------------------------------
//@file crates/math-core/src/error.rs
#[verifier::external_body]
pub struct LatexErrKind { k: u8 }
/// the message text of an error kind (not specified further)
pub uninterp spec fn kind_msg(k: LatexErrKind) -> Seq<char>;
impl LatexErrKind {
    #[verifier::external_body]
    pub fn write_msg(&self, s: &mut String) -> (r: Result<(), FmtError>)
        ensures final(s)@ == old(s)@ + kind_msg(*self), r.is_ok()
    { unimplemented!() }
}
pub enum MathDisplay { Inline, Block }
pub struct LatexError(pub Range<usize>, pub LatexErrKind);

/// the number of characters that end at or before byte `i`
pub open spec fn prefix_chars(s: Seq<char>, i: int) -> nat decreases s.len() {
    if s.len() == 0 { 0 }
    else if sbytes(s).len() <= i { s.len() }
    else { prefix_chars(s.drop_last(), i) }
}
pub proof fn lemma_prefix_chars(s: Seq<char>, i: int, k: int)
    requires 0 <= k <= s.len(), sbytes(s.take(k)).len() <= i, k == s.len() || i < sbytes(s.take(k + 1)).len()
    ensures prefix_chars(s, i) == k
    decreases s.len()
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() == 0 { }
    else if k == s.len() { }
    else {
        if k + 1 < s.len() { lemma_take_mono(s, k + 1, s.len() as int); }
        assert(s.drop_last().take(k) =~= s.take(k));
        if k < s.len() - 1 { assert(s.drop_last().take(k + 1) =~= s.take(k + 1)); }
        lemma_prefix_chars(s.drop_last(), i, k);
    }
}
//@subst .chars().count() ==> .vx_chars_count()
pub open spec fn message(e: LatexError, input: Seq<char>) -> Seq<char> {
    decimal(prefix_chars(input, e.0.start as int)) + ": "@ + kind_msg(e.1)
}
impl LatexError {
//@fn LatexError::to_message
//@vis pub
//@opt strslice
//@spec
    ensures final(s)@ == old(s)@ + message(*self, input@)
//@start
    let ghost out0 = s@;
    proof { encode_utf8_valid_utf8(input@); is_char_boundary_start_end_of_seq(sbytes(input@)); }
//@afterlet loc
    proof {
        let t = input@;
        let k = lemma_bound_split(t, loc as int);
        assert forall|p: Seq<char>| #[trigger] sbytes(p) == sbytes(t).take(loc as int) implies p == t.take(k as int) by { lemma_encode_inj(p, t.take(k as int)); }
        if k < t.len() {
            lemma_bound_take(t, k as int + 1);
            lemma_take_mono(t, k as int, k as int + 1);
        }
        assert(sbytes(t).take(loc as int).len() == loc);
        lemma_prefix_chars(t, self.0.start as int, k as int);
    }
//@end
    proof { assert(s@ =~= out0 + message(*self, input@)); }
//@endfn
//@fn LatexError::to_html
//@vis pub
//@attr #[verifier::rlimit(80)]
//@ret r
//@spec
    ensures ({
        let tag = if display is Block { "p"@ } else { "span"@ };
        let class = match css_class { Some(c) => c@, None => "math-core-error"@ };
        sbytes(r@) == sbytes("<"@ + tag + " class=\""@ + class + "\" title=\""@)
            + esca(sbytes(message(*self, latex@)))
            + sbytes("\"><code>"@) + esc(sbytes(latex@)) + sbytes("</code></"@ + tag + ">"@)
    })
//@start
    broadcast use lemma_sbytes_concat;
//@end
    proof {
        let tag = if display is Block { "p"@ } else { "span"@ };
        let class = css_class@;
        let out1 = sbytes("<"@ + tag + " class=\""@ + class + "\" title=\""@) + esca(sbytes(message(*self, latex@)));
        assert(Seq::<char>::empty() + "<"@ =~= "<"@);
        assert(err_msg@ =~= message(*self, latex@));
        assert(sbytes(vx_ret@) =~= out1 + sbytes("\"><code>"@) + esc(sbytes(latex@)) + sbytes("</code></"@ + tag + ">"@));
    }
//@endfn
}

} // verus!
fn main() {}
