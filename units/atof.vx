// Reading a decimal numeral (crates/math-core/src/atof.rs)
// ---- specification -------------------------------------------------------------------------------
pub open spec fn is_digit(b: u8) -> bool { 48 <= b <= 57 }
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn vx_lower(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
/// number of decimal points
pub open spec fn points(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { points(s.drop_last()) + if s.last() == 46 { 1nat } else { 0 } }
}
/// the value of the digits, read without the point
pub open spec fn mant(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s.last() == 46 { mant(s.drop_last()) } else { (mant(s.drop_last()) * 10 + (s.last() - 48)) as nat }
}
/// the number of digits after the point
pub open spec fn places(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 || s.last() == 46 { 0 } else if points(s) == 0 { 0 } else { places(s.drop_last()) + 1 }
}
/// digits with at most one point, and at least one digit
pub open spec fn numeral(s: Seq<u8>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) || s[i] == 46) && points(s) <= 1 && exists|i: int| 0 <= i < s.len() && is_digit(#[trigger] s[i])
}
pub open spec fn unsigned(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s[0] == 45 { s.skip(1) } else { s } }
/// the number a numeral stands for: its digits over ten to the number of places
pub open spec fn quotient(s: Seq<u8>) -> f32 { narrow(fdiv(widen(mant(s) as u64), pow10(places(s)))) }
pub open spec fn number(s: Seq<u8>) -> Option<f32> {
    let u = unsigned(s);
    if !numeral(u) || mant(u) > u64::MAX { None } else { Some(if u == s { quotient(u) } else { fneg(quotient(u)) }) }
}
/// without the blanks at the end
pub open spec fn trimmed(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trimmed(s.drop_last()) } else { s } }

pub proof fn lemma_points_mono(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len()
    ensures points(s.take(k)) <= points(s)
    decreases s.len()
{
    if k < s.len() { lemma_points_mono(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); }
}
pub proof fn lemma_mant_mono(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) || s[i] == 46
    ensures mant(s.take(k)) <= mant(s)
    decreases s.len()
{
    if k < s.len() { assert(is_digit(s.last()) || s.last() == 46); lemma_mant_mono(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); }
}

#[verifier::external_body]
pub fn vx_strip_minus(b: &[u8]) -> (r: Option<&[u8]>)
    ensures match r { Some(t) => b@.len() > 0 && b@[0] == 45 && t@ == b@.skip(1), None => !(b@.len() > 0 && b@[0] == 45) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_split_at(s: &str, i: usize) -> (r: Option<(&str, &str)>)
    ensures match r {
        Some((a, b)) => is_bound(s@, i as int) && i <= sbytes(s@).len() && sbytes(a@) == sbytes(s@).take(i as int) && sbytes(b@) == sbytes(s@).skip(i as int),
        None => !(i <= sbytes(s@).len() && is_bound(s@, i as int)) }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_trim_ascii_end(s: &str) -> (r: &str)
    ensures sbytes(r@) == trimmed(sbytes(s@))
{ unimplemented!() }

//@file crates/math-core/src/atof.rs
//@fn limited_float_parse
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@subst bytes.strip_prefix(b"-") ==> vx_strip_minus(bytes)
//@subst divisor *= 10.0 ==> divisor = divisor * 10.0
//@subst (mantissa as f64 / divisor) as f32 ==> vx_narrow(vx_widen(mantissa) / divisor)
//@subst -v ==> vx_neg(v)
//@spec
    ensures r == number(sbytes(digits@))
//@start
    broadcast use axiom_mul64, axiom_div64;
    let ghost all = sbytes(digits@);
//@afterlet neg
    let ghost u = unsigned(all);
    assert(bytes@ == u);
    assert(neg == (u != all)) by { if neg { assert(u.len() < all.len()); } }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == u.len(), forall|i: int| 0 <= i < u.len() ==> *(#[trigger] it.seq()[i]) == u[i],
        u == unsigned(all),
        forall|i: int| 0 <= i < it.index@ ==> is_digit(#[trigger] u[i]) || u[i] == 46,
        points(u.take(it.index@)) == (if seen_dot { 1nat } else { 0 }),
        mantissa == mant(u.take(it.index@)),
        divisor == pow10(places(u.take(it.index@))),
        seen_digit == exists|i: int| 0 <= i < it.index@ && is_digit(#[trigger] u[i]),
//@loopstart 0
    broadcast use axiom_mul64;
    let ghost k = it.index@;
    assert(u.take(k + 1).drop_last() =~= u.take(k));
    assert(u.take(k + 1).last() == u[k]);
    proof {
        if forall|i: int| 0 <= i < u.len() ==> is_digit(#[trigger] u[i]) || u[i] == 46 { lemma_mant_mono(u, k + 1); }
        lemma_points_mono(u, k + 1);
        assert(numeral(u) ==> is_digit(u[k]) || u[k] == 46);
        assert(points(u.take(k + 1)) == points(u.take(k)) + if u[k] == 46 { 1nat } else { 0 });
        if is_digit(u[k]) {
            assert(mant(u.take(k + 1)) == mant(u.take(k)) * 10 + (u[k] - 48));
            assert(places(u.take(k + 1)) == if points(u.take(k)) == 0 { 0 } else { places(u.take(k)) + 1 });
        }
    }
    reveal_with_fuel(pow10, 2);
//@afterloop 0
    assert(u.take(u.len() as int) =~= u);
//@endfn
