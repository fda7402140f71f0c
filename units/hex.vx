// Two hexadecimal digits (crates/mathml-renderer/src/itoa.rs)
pub open spec fn hex_digit(d: int) -> char { if d < 10 { (48 + d) as u8 as char } else { (65 + d - 10) as u8 as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
#[verifier::external_body]
pub fn vx_ascii_str(b: &[u8]) -> (r: &str)
    requires forall|i: int| 0 <= i < b@.len() ==> b@[i] < 128
    ensures r@ == Seq::new(b@.len(), |i: int| b@[i] as char)
{ core::str::from_utf8(b).unwrap() }
//@file crates/mathml-renderer/src/itoa.rs
//@fn digit_to_hex_ascii
//@ret r
//@vis pub
//@spec
    requires digit < 16
    ensures r < 128, r as char == hex_digit(digit as int)
//@endfn
//@fn append_u8_as_hex
//@vis pub
//@subst core::str::from_utf8_unchecked ==> vx_ascii_str
//@spec
    ensures final(output)@ == old(output)@ + hex2(b)
//@start
    assert(b >> 4 == b / 16 && b & 0x0F == b % 16) by (bit_vector);
//@end
    assert(final(output)@ =~= old(output)@ + hex2(b));
//@endfn
