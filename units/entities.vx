// ---- specification -------------------------------------------------------------------------------
/// the first position of byte `b`, or the length
pub open spec fn first(s: Seq<u8>, b: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == b { 0 } else { 1 + first(s.skip(1), b) }
}
/// the ten references of the property
pub open spec fn entity(n: Seq<u8>) -> Option<u8> {
    if n == seq![35u8, 51, 52] || n == seq![113u8, 117, 111, 116] { Some(34u8) }          // #34 quot
    else if n == seq![35u8, 51, 56] || n == seq![97u8, 109, 112] { Some(38u8) }           // #38 amp
    else if n == seq![35u8, 51, 57] || n == seq![97u8, 112, 111, 115] { Some(39u8) }      // #39 apos
    else if n == seq![35u8, 54, 48] || n == seq![108u8, 116] { Some(60u8) }               // #60 lt
    else if n == seq![35u8, 54, 50] || n == seq![103u8, 116] { Some(62u8) }               // #62 gt
    else { None }
}
/// what the text means: from left to right, each `&...;` once
#[verifier::opaque]
pub open spec fn dec(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    let i = first(s, 38);
    let j = i + 1 + first(s.skip(i + 1), 59);
    if i < 0 || i >= s.len() || j <= i || j >= s.len() { s }
    else {
        s.take(i) + (match entity(s.subrange(i + 1, j)) { Some(c) => seq![c], None => s.subrange(i, j + 1) }) + dec(s.skip(j + 1))
    }
}
// ---- lemmas --------------------------------------------------------------------------------------
pub proof fn lemma_first(s: Seq<u8>, b: u8)
    ensures 0 <= first(s, b) <= s.len(), first(s, b) < s.len() ==> s[first(s, b)] == b,
        forall|j: int| 0 <= j < first(s, b) ==> #[trigger] s[j] != b,
    decreases s.len()
{
    if s.len() > 0 && s[0] != b {
        lemma_first(s.skip(1), b);
        assert forall|j: int| 0 <= j < first(s, b) implies #[trigger] s[j] != b by { if j > 0 { assert(s[j] == s.skip(1)[j - 1]); } }
    }
}
pub proof fn lemma_first_is(s: Seq<u8>, b: u8, i: int)
    requires 0 <= i <= s.len(), i < s.len() ==> s[i] == b, forall|j: int| 0 <= j < i ==> #[trigger] s[j] != b
    ensures first(s, b) == i
{ lemma_first(s, b); let f = first(s, b); if f < i { assert(s[f] != b); } else if i < f { assert(s[i] != b); } }
/// The table of the code is the table of the property.
pub proof fn theorem_table(n: Seq<u8>)
    ensures reserved_get_spec(n) == entity(n)
{
    assert(seq![35u8, 51, 52] !~= seq![35u8, 51, 56]);
}
pub proof fn lemma_dec_plain(s: Seq<u8>)
    ensures first(s, 38) == s.len() ==> dec(s) == s,
        first(s, 38) < s.len() && first(s.skip(first(s, 38) + 1), 59) == s.len() - first(s, 38) - 1 ==> dec(s) == s,
{ lemma_first(s, 38); reveal_with_fuel(dec, 2); }
/// One step of the reader: `s` is the text from `last_end`.
pub proof fn lemma_step(t: Seq<u8>, a: int, i: int, j: int)
    requires 0 <= a <= i < j < t.len(), i == a + first(t.skip(a), 38), j == i + 1 + first(t.skip(i + 1), 59)
    ensures dec(t.skip(a)) == t.subrange(a, i) + (match entity(t.subrange(i + 1, j)) { Some(c) => seq![c], None => t.subrange(i, j + 1) }) + dec(t.skip(j + 1)),
        t[j] == 59,
{
    let s = t.skip(a);
    reveal_with_fuel(dec, 2);
    lemma_first(s, 38);
    lemma_first(t.skip(i + 1), 59);
    assert(s.skip(i - a + 1) =~= t.skip(i + 1));
    assert(s.subrange(i - a + 1, j - a) =~= t.subrange(i + 1, j));
    assert(s.subrange(i - a, j - a + 1) =~= t.subrange(i, j + 1));
    assert(s.skip(j - a + 1) =~= t.skip(j + 1));
    assert(s.take(i - a) =~= t.subrange(a, i));
}
// ---- trusted ---------------------------------------------------------------------------------------
pub assume_specification[ String::capacity ](s: &String) -> (r: usize) ensures r == cap(s);
pub uninterp spec fn cap(s: &String) -> usize;
pub assume_specification[ String::reserve ](s: &mut String, n: usize) ensures final(s)@ == old(s)@;
#[verifier::external_body]
pub fn vx_memchr(a: u8, hay: &[u8]) -> (r: Option<usize>)
    ensures match r { Some(i) => i == first(hay@, a) && i < hay@.len(), None => first(hay@, a) == hay@.len() }
{ unimplemented!() }
/// `s.iter().position(|&b| b == a)`
#[verifier::external_body]
pub fn vx_position(hay: &[u8], a: u8) -> (r: Option<usize>)
    ensures match r { Some(i) => i == first(hay@, a) && i < hay@.len(), None => first(hay@, a) == hay@.len() }
{ unimplemented!() }
/// appending one byte as text; the byte must be ASCII
#[verifier::external_body]
pub fn vx_push_byte(s: &mut String, b: u8)
    requires b < 0x80
    ensures sbytes(final(s)@) == sbytes(old(s)@) + seq![b]
{ unimplemented!() }

//@file crates/math-core-cli/src/html_entities.rs
//@phf HTML_RESERVED_MAP reserved_get
//@fn replace_html_entities
//@vis pub
//@attr #[verifier::rlimit(60)]
//@opt strslice
//@ret r
//@subst memchr ==> vx_memchr
//@subst &buffer[..] ==> buffer.as_str()
//@subst bytes[entity_start..].iter().position(|&b| b == b';') ==> vx_position(&bytes[entity_start..], b';')
//@subst HTML_RESERVED_MAP.get ==> reserved_get
//@subst buffer.push_str(std::str::from_utf8_unchecked(&[*replacement])) ==> vx_push_byte(buffer, *replacement)
//@spec
    ensures sbytes(r@) == dec(sbytes(input@))
//@start
    broadcast use {axiom_str_len, lemma_sbytes_concat};
    let ghost t = sbytes(input@);
    proof { lemma_first(t, 38); encode_utf8_valid_utf8(input@); is_char_boundary_start_end_of_seq(t); lemma_dec_plain(t); lemma_encode_nil(); }
//@beforeloop 0
    proof { assert(t.skip(0) =~= t); assert(sbytes(buffer@) =~= Seq::<u8>::empty()); assert(sbytes(buffer@) + dec(t) =~= dec(t)); }
//@loop 0
    invariant_except_break
        0 <= last_end <= next_start < t.len(),
        t[next_start as int] == 38,
        next_start == last_end + first(t.skip(last_end as int), 38),
        is_bound(input@, last_end as int),
        sbytes(buffer@) + dec(t.skip(last_end as int)) == dec(t),
    invariant
        t == sbytes(input@), bytes@ == t, t.len() <= isize::MAX,
        is_bound(input@, 0), is_bound(input@, t.len() as int),
    ensures
        last_end <= t.len(), is_bound(input@, last_end as int),
        sbytes(buffer@) + t.skip(last_end as int) == dec(t),
    decreases t.len() - next_start
//@loopstart 0
    broadcast use lemma_sbytes_concat;
    let ghost a = last_end as int;
    let ghost i = next_start as int;
    let ghost b0 = sbytes(buffer@);
    proof {
        lemma_ascii_bound(input@, i);
        lemma_first(t.skip(a), 38);
        lemma_first(t.skip(i + 1), 59);
        lemma_dec_plain(t.skip(a));
        lemma_dec_plain(t.skip(i));
        assert(t.skip(a).skip(i - a + 1) =~= t.skip(i + 1));
        assert(t.skip(i).skip(1) =~= t.skip(i + 1));
        lemma_first_is(t.skip(i), 38, 0);
        assert(t.skip(a) =~= t.subrange(a, i) + t.skip(i));
    }
//@aftercall push_str
    proof {
        assert(sbytes(buffer@) =~= b0 + t.subrange(a, i));
        assert(b0 + t.skip(a) =~= (b0 + t.subrange(a, i)) + t.skip(i));
    }
    let ghost b1 = sbytes(buffer@);
//@afterlet end
    proof {
        lemma_step(t, a, i, end as int);
        lemma_ascii_bound(input@, end as int);
        theorem_table(t.subrange(i + 1, end as int));
        let m = match entity(t.subrange(i + 1, end as int)) { Some(c) => seq![c], None => t.subrange(i, end + 1) };
        assert(b0 + (t.subrange(a, i) + m + dec(t.skip(end + 1))) =~= (b0 + t.subrange(a, i) + m) + dec(t.skip(end + 1)));
        assert(b1 + m =~= b0 + t.subrange(a, i) + m);
        assert(b1 + m + dec(t.skip(end + 1)) == dec(t));
        lemma_first(t.skip(end + 1), 38);
        lemma_dec_plain(t.skip(end + 1));
    }
//@end
    proof { assert(sbytes(buffer@) =~= dec(t)); }
//@endfn

