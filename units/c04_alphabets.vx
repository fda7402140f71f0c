//@include prelude.vx
//@include superchar.vx
//@include alphabets.vx
//@file crates/mathml-renderer/src/attribute.rs
//@extract enum TextTransform #[derive(Clone, Copy, PartialEq, Eq, Structural)]
/// The counterpart of a character in an alphabet. Upright bold italic is bold.
pub open spec fn effective(t: TextTransform, upright: bool) -> TextTransform { if upright && t is BoldItalic { TextTransform::Bold } else { t } }
pub open spec fn counterpart(t: TextTransform, c: u32) -> Option<u32> {
    match t {
        TextTransform::Bold => alpha_bold(c),
        TextTransform::BoldFraktur => alpha_boldfraktur(c),
        TextTransform::BoldItalic => alpha_bolditalic(c),
        TextTransform::BoldSansSerif => alpha_boldsansserif(c),
        TextTransform::BoldScript => alpha_boldscript(c),
        TextTransform::DoubleStruck => alpha_doublestruck(c),
        TextTransform::Fraktur => alpha_fraktur(c),
        TextTransform::Italic => alpha_italic(c),
        TextTransform::Monospace => alpha_monospace(c),
        TextTransform::SansSerif => alpha_sansserif(c),
        TextTransform::SansSerifBoldItalic => alpha_sansserifbolditalic(c),
        TextTransform::SansSerifItalic => alpha_sansserifitalic(c),
        TextTransform::ScriptChancery => alpha_script(c),
        TextTransform::ScriptRoundhand => alpha_script(c),
    }
}
/// The two script alphabets carry a selector.
pub open spec fn selector(t: TextTransform) -> Seq<char> {
    match t { TextTransform::ScriptChancery => seq!['\u{FE00}'], TextTransform::ScriptRoundhand => seq!['\u{FE01}'], _ => seq![] }
}
pub open spec fn transformed(t: TextTransform, c: char, upright: bool) -> Seq<char> {
    match counterpart(effective(t, upright), c as u32) {
        Some(m) => seq![m as char] + selector(effective(t, upright)),
        None => seq![c],
    }
}
/// Known finding C04 fraktur-I, and U+03A2 (unassigned; no character a formula can contain).
pub open spec fn excepted(t: TextTransform, c: char) -> bool { c == '\u{3A2}' || (t is Fraktur && c == 'I') }

//@fn add_offset
//@ret r
//@opt noconst
//@vis pub
//@subst char::from_u32_unchecked ==> vx_char
//@spec
    requires c as u32 + offset <= 0x10FFFF, scalar((c as u32 + offset) as u32)
    ensures r as u32 == c as u32 + offset
//@endfn
impl TextTransform {
//@fn TextTransform::transform_char
//@ret r
//@opt noconst
//@spec
    ensures
        r.ok(),
        !excepted(self, c) ==> r.text() == transformed(self, c, is_upright),
//@start
    broadcast use axiom_char;
//@endfn
//@fn TextTransform::transform
//@ret r
//@opt noconst
//@spec
    requires ts.ok()
    ensures
        r.ok(),
        ts.text().len() > 1 ==> r == ts,
        ts.text().len() == 1 && !excepted(self, ts.text()[0]) ==> r.text() == transformed(self, ts.text()[0], is_upright),
//@endfn
}
} // verus!
fn main() {}
