//@include prelude.vx
//@include hex.vx
// ---- specification -------------------------------------------------------------------------------
pub open spec fn is_hex(h: u8) -> bool { (48 <= h <= 57) || (97 <= h <= 102) || (65 <= h <= 70) }
pub open spec fn hex_value(h: u8) -> int { if h <= 57 { h - 48 } else if h <= 70 { h - 65 + 10 } else { h - 97 + 10 } }
/// Reading two digits and writing the value again gives the digits back (in upper case).
pub open spec fn upper(h: u8) -> u8 { if 97 <= h <= 122 { (h - 32) as u8 } else { h } }
pub proof fn lemma_roundtrip(a: u8, b: u8)
    requires is_hex(a), is_hex(b)
    ensures 0 <= hex_value(a) * 16 + hex_value(b) < 256, hex2((hex_value(a) * 16 + hex_value(b)) as u8) =~= seq![upper(a) as char, upper(b) as char]
{ }
//@file crates/math-core/src/parser.rs
//@fn Parser::parse_one_token>>hex
//@ret r
//@vis pub
//@spec
    ensures is_hex(h) ==> r == hex_value(h), r <= 15
//@endfn
//@include colours.vx
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
//@file crates/math-core/src/color_defs.rs
//@phf COLORS vx_colors
//@fn get_color
//@ret r
//@vis pub
//@subst COLORS.get(name) ==> vx_colors(name)
//@spec
    ensures r == named_colour(name@)
//@endfn
} // verus!
fn main() {}
