//@include prelude.vx
//@include utf8.vx
//@include float.vx

//@include atof.vx
// ---- lengths -------------------------------------------------------------------------------------
//@file crates/mathml-renderer/src/length.rs
//@extract enum LengthUnit #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct LengthValue #[derive(Clone, Copy)]
//@extract struct Length #[derive(Clone, Copy)]
//@strum-str LengthUnit vx_unit_name
use LengthUnit::*;
pub uninterp spec fn shortest(x: f32) -> Seq<char>;
/// `dtoa::Buffer::format`
#[verifier::external_body]
pub fn vx_dtoa(x: f32) -> (r: &'static str) ensures r@ == shortest(x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@ == t@ + p@, None => !(exists|t: Seq<char>| s@ == #[trigger] (t + p@)) }
{ unimplemented!() }
pub uninterp spec fn is_zero(x: f32) -> bool;
/// `x != 0.0`
#[verifier::external_body]
pub fn vx_nonzero(x: f32) -> (r: bool) ensures r == !is_zero(x) { x != 0.0 }
pub open spec fn without_suffix(s: Seq<char>, p: Seq<char>) -> Seq<char> {
    if p.len() <= s.len() && s.skip(s.len() - p.len()) == p { s.take(s.len() - p.len()) } else { s }
}
/// How a length is written: the shortest decimal, without `.0`, then the unit unless it is zero.
pub open spec fn length_text(l: Length) -> Seq<char> {
    without_suffix(shortest(l.value.0), seq!['.', '0']) + if is_zero(l.value.0) { Seq::empty() } else { vx_unit_name_spec(l.unit) }
}
impl Length {
//@fn Length::new
//@ret r
//@opt noconst
//@vis pub
//@spec
    ensures r == (Length { value: LengthValue(value), unit })
//@endfn
//@fn Length::push_to_string
//@vis pub
//@subst let mut buffer = dtoa::Buffer::new(); ==>
//@subst buffer.format(self.value.0) ==> vx_dtoa(self.value.0)
//@subst result.strip_suffix(".0") ==> vx_strip_suffix(result, ".0")
//@subst self.value.0 != 0.0 ==> vx_nonzero(self.value.0)
//@subst <&'static str>::from(self.unit) ==> vx_unit_name(self.unit)
//@spec
    ensures final(output)@ == old(output)@ + length_text(*self)
//@afterlet result
    proof {
        let p = seq!['.', '0'];
        assert(".0"@ =~= p);
        if p.len() <= result@.len() && result@.skip(result@.len() - p.len()) == p { assert(result@ =~= result@.take(result@.len() - p.len()) + p); }
        assert forall|t: Seq<char>| result@ == #[trigger] (t + p) implies without_suffix(result@, p) == t by {
            assert((t + p).skip((t + p).len() - p.len()) =~= p);
            assert((t + p).take((t + p).len() - p.len()) =~= t);
        }
    }
//@end
    proof {
        let r = shortest(self.value.0);
        assert(old(output)@ + without_suffix(r, seq!['.', '0']) + Seq::<char>::empty() =~= old(output)@ + without_suffix(r, seq!['.', '0']));
        assert(output@ =~= old(output)@ + length_text(*self));
    }
//@endfn
}

//@file crates/math-core/src/specifications.rs
//@extract enum LatexUnit #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@strum-parse LatexUnit vx_unit
/// One unit in terms of the units of the output (TeX: 1in = 72.27pt = 25.4mm; 1rem = 10pt; 1em = 18mu; 1pt = 65536sp).
pub open spec fn in_output(u: LatexUnit, v: f32) -> Length {
    match u {
        LatexUnit::Pt => Length { value: LengthValue(fmul(0.1f32, v)), unit: LengthUnit::Rem },
        LatexUnit::Mm => Length { value: LengthValue(fmul(0.28453f32, v)), unit: LengthUnit::Rem },
        LatexUnit::Cm => Length { value: LengthValue(fmul(2.8453f32, v)), unit: LengthUnit::Rem },
        LatexUnit::In => Length { value: LengthValue(fmul(7.2f32, v)), unit: LengthUnit::Rem },
        LatexUnit::Ex => Length { value: LengthValue(v), unit: LengthUnit::Ex },
        LatexUnit::Em => Length { value: LengthValue(v), unit: LengthUnit::Em },
        LatexUnit::Mu => Length { value: LengthValue(fmul(0.055555556f32, v)), unit: LengthUnit::Em },
        LatexUnit::Sp => Length { value: LengthValue(fmul(1.525879e-6f32, v)), unit: LengthUnit::Rem },
    }
}
/// the two letters of a unit, in either case
pub open spec fn unit_named(b: Seq<u8>) -> Option<LatexUnit> {
    let l = vx_lower(b);
    if l == seq![112u8, 116] { Some(LatexUnit::Pt) } else if l == seq![109u8, 109] { Some(LatexUnit::Mm) }
    else if l == seq![99u8, 109] { Some(LatexUnit::Cm) } else if l == seq![105u8, 110] { Some(LatexUnit::In) }
    else if l == seq![101u8, 120] { Some(LatexUnit::Ex) } else if l == seq![101u8, 109] { Some(LatexUnit::Em) }
    else if l == seq![109u8, 117] { Some(LatexUnit::Mu) } else if l == seq![115u8, 112] { Some(LatexUnit::Sp) }
    else { None }
}
/// A dimension: an optional minus, a numeral, optional blanks, and a unit; nothing else is one.
pub open spec fn dimension(b: Seq<u8>) -> Option<(Length, Seq<u8>, bool)> {
    if b.len() < 2 { None } else {
        let u = b.skip(b.len() - 2);
        match (number(trimmed(b.take(b.len() - 2))), unit_named(u)) {
            (Some(v), Some(x)) => Some((in_output(x, v), u, x == LatexUnit::Mu)),
            _ => None,
        }
    }
}
/// The strum-derived names are the units of the statement.
pub proof fn lemma_units(b: Seq<u8>) ensures vx_unit_spec(b) == unit_named(b) { }
/// Nothing that ends in a unit splits a character there.
pub proof fn lemma_unit_bound(s: Seq<char>)
    requires sbytes(s).len() >= 2, unit_named(sbytes(s).skip(sbytes(s).len() - 2)).is_some()
    ensures is_bound(s, sbytes(s).len() - 2)
{
    let n = sbytes(s).len() - 2;
    let u = sbytes(s).skip(n);
    assert(vx_lower(u)[0] == lower(u[0]) && lower(u[0]) < 0x80);
    assert(u[0] == sbytes(s)[n] && u[0] < 0x80);
    lemma_ascii_bound(s, n);
}
impl LatexUnit {
//@fn LatexUnit::is_math_unit
//@ret r
//@opt noconst
//@spec
    ensures r == (self == LatexUnit::Mu)
//@endfn
//@fn LatexUnit::length_with_unit
//@ret r
//@opt noconst
//@spec
    ensures r == in_output(self, value)
//@start
    broadcast use axiom_mul32;
//@endfn
}
//@fn parse_length_specification
//@ret r
//@vis pub
//@subst s.split_at_checked(unit_offset) ==> vx_split_at(s, unit_offset)
//@subst crate::atof::limited_float_parse ==> limited_float_parse
//@subst digits.trim_ascii_end() ==> vx_trim_ascii_end(digits)
//@subst LatexUnit::try_from(unit).ok() ==> vx_unit(unit)
//@spec
    ensures match r {
        Some((l, u, m)) => dimension(sbytes(s@)) == Some((l, sbytes(u@), m)),
        None => dimension(sbytes(s@)).is_none(),
    }
//@start
    broadcast use axiom_str_len;
    proof {
        if sbytes(s@).len() >= 2 {
            lemma_units(sbytes(s@).skip(sbytes(s@).len() - 2));
            if unit_named(sbytes(s@).skip(sbytes(s@).len() - 2)).is_some() { lemma_unit_bound(s@); }
        }
    }
//@endfn
} // verus!
fn main() {}
