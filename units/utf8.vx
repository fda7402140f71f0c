// ---------------------------------------------------------------------------------------------
// UTF-8 lemmas (proved)
// ---------------------------------------------------------------------------------------------
/// ASCII characters are one byte, all bytes of the others are >= 0x80.
pub proof fn lemma_scalar_bytes(c: char)
    ensures
        (c as u32) <= 0x7f ==> encode_scalar(c as u32) == seq![c as u8],
        (c as u32) > 0x7f ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 0x80,
        encode_scalar(c as u32).len() >= 1,
{
    let u = c as u32;
    reveal(encode_scalar);
    if u <= 0x7f {
        assert(u <= 0x7f ==> (u & 0x7F) == u) by(bit_vector);
        assert(leading_byte_width_1(u) == c as u8);
        assert(encode_scalar(u) =~= seq![c as u8]);
    } else {
        assert((0xC0u8 | ((u >> 6u32) & 0x1F) as u8) >= 0x80) by(bit_vector);
        assert((0xE0u8 | ((u >> 12u32) & 0x0F) as u8) >= 0x80) by(bit_vector);
        assert((0xF0u8 | ((u >> 18u32) & 0x07) as u8) >= 0x80) by(bit_vector);
        assert((0x80u8 | (u & 0x3F) as u8) >= 0x80) by(bit_vector);
        assert((0x80u8 | ((u >> 6u32) & 0x3F) as u8) >= 0x80) by(bit_vector);
        assert((0x80u8 | ((u >> 12u32) & 0x3F) as u8) >= 0x80) by(bit_vector);
    }
}

pub proof fn lemma_encode_nil()
    ensures encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{ reveal_with_fuel(encode_utf8, 2); }

/// `encode_utf8` of one more character.
pub proof fn lemma_encode_cons(c: char, s: Seq<char>)
    ensures encode_utf8(seq![c] + s) == encode_scalar(c as u32) + encode_utf8(s)
{
    reveal_with_fuel(encode_utf8, 2);
    assert((seq![c] + s).drop_first() =~= s);
}

pub proof fn lemma_encode_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }

pub proof fn lemma_bound_cons(s: Seq<char>, i: int)
    requires s.len() > 0
    ensures
        encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(s.skip(1)),
        is_bound(s, i) <==> (i == 0 || (0 < i <= encode_utf8(s).len() && is_bound(s.skip(1), i - encode_scalar(s[0] as u32).len()))),
{
    encode_utf8_first_scalar(s);
    encode_utf8_valid_utf8(s);
    lemma_encode_cons(s[0], s.skip(1));
    assert(seq![s[0]] + s.skip(1) =~= s);
    let b = encode_utf8(s);
    lemma_scalar_bytes(s[0]);
    assert(pop_first_scalar(b) =~= encode_utf8(s.skip(1)));
    reveal_with_fuel(is_char_boundary, 2);
}
/// a boundary of the bytes splits the characters
pub proof fn lemma_bound_split(s: Seq<char>, i: int) -> (k: nat)
    requires is_bound(s, i)
    ensures k <= s.len(), 0 <= i <= sbytes(s).len(), sbytes(s.take(k as int)) == sbytes(s).take(i), sbytes(s.skip(k as int)) == sbytes(s).skip(i)
    decreases s.len()
{
    encode_utf8_valid_utf8(s);
    lemma_encode_nil();
    reveal_with_fuel(is_char_boundary, 2);
    if i == 0 { assert(s.take(0) =~= Seq::<char>::empty()); assert(sbytes(s).take(0) =~= Seq::<u8>::empty()); assert(s.skip(0) =~= s); assert(sbytes(s).skip(0) =~= sbytes(s)); 0 }
    else if s.len() == 0 { assert(s =~= Seq::<char>::empty()); assert(false); 0 }
    else {
        lemma_bound_cons(s, i);
        let n = encode_scalar(s[0] as u32).len();
        lemma_scalar_bytes(s[0]);
        let k = lemma_bound_split(s.skip(1), i - n);
        lemma_encode_cons(s[0], s.skip(1).take(k as int));
        assert(seq![s[0]] + s.skip(1).take(k as int) =~= s.take(k as int + 1));
        assert(s.skip(1).skip(k as int) =~= s.skip(k as int + 1));
        assert(sbytes(s).take(i) =~= encode_scalar(s[0] as u32) + sbytes(s.skip(1)).take(i - n));
        assert(sbytes(s).skip(i) =~= sbytes(s.skip(1)).skip(i - n));
        (k + 1) as nat
    }
}
pub proof fn lemma_bound_take(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bound(s, sbytes(s.take(k)).len() as int), sbytes(s.take(k)).len() <= sbytes(s).len(),
        sbytes(s.take(k)) == sbytes(s).take(sbytes(s.take(k)).len() as int)
{
    encode_utf8_concat(s.take(k), s.skip(k));
    assert(s.take(k) + s.skip(k) =~= s);
    assert(sbytes(s).take(sbytes(s.take(k)).len() as int) =~= sbytes(s.take(k)));
    lemma_bound_take_aux(s, k);
}
pub proof fn lemma_bound_take_aux(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures is_bound(s, sbytes(s.take(k)).len() as int)
    decreases k
{
    encode_utf8_valid_utf8(s);
    lemma_encode_nil();
    if k == 0 { assert(s.take(0) =~= Seq::<char>::empty()); is_char_boundary_start_end_of_seq(sbytes(s)); }
    else {
        lemma_bound_take_aux(s.skip(1), k - 1);
        lemma_encode_cons(s[0], s.skip(1).take(k - 1));
        assert(seq![s[0]] + s.skip(1).take(k - 1) =~= s.take(k));
        lemma_bound_cons(s, sbytes(s.take(k)).len() as int);
        lemma_scalar_bytes(s[0]);
        encode_utf8_concat(s.take(k), s.skip(k));
        assert(s.take(k) + s.skip(k) =~= s);
    }
}
/// longer prefixes have more bytes
pub proof fn lemma_take_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len()
    ensures sbytes(s.take(j)).len() < sbytes(s.take(k)).len()
{
    encode_utf8_concat(s.take(j), s.subrange(j, k));
    assert(s.take(j) + s.subrange(j, k) =~= s.take(k));
    let t = s.subrange(j, k);
    lemma_encode_cons(t[0], t.skip(1));
    assert(seq![t[0]] + t.skip(1) =~= t);
    lemma_scalar_bytes(t[0]);
}
pub broadcast proof fn lemma_sbytes_concat(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b)
{ encode_utf8_concat(a, b); }
/// An ASCII byte splits a text at a character boundary.
pub proof fn lemma_ascii_bound(s: Seq<char>, i: int)
    requires 0 <= i < sbytes(s).len(), sbytes(s)[i] < 0x80
    ensures is_bound(s, i), is_bound(s, i + 1)
    decreases s.len()
{
    lemma_encode_nil();
    if s.len() == 0 { assert(s =~= Seq::<char>::empty()); }
    else {
        let n = encode_scalar(s[0] as u32).len();
        lemma_bound_cons(s, i);
        lemma_bound_cons(s, i + 1);
        lemma_scalar_bytes(s[0]);
        encode_utf8_valid_utf8(s.skip(1));
        is_char_boundary_start_end_of_seq(sbytes(s.skip(1)));
        if i < n { assert(sbytes(s)[i] == encode_scalar(s[0] as u32)[i]); }
        else { assert(sbytes(s)[i] == sbytes(s.skip(1))[i - n]); lemma_ascii_bound(s.skip(1), i - n); }
    }
}
