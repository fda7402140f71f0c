// Packed symbols (crates/mathml-renderer/src/super_char.rs)
//@subst char::from_u32_unchecked ==> vx_char
//@subst symbol::COMBINING_LONG_SOLIDUS_OVERLAY ==> COMBINING_LONG_SOLIDUS_OVERLAY
//@subst symbol::COMBINING_LONG_VERTICAL_LINE_OVERLAY ==> COMBINING_LONG_VERTICAL_LINE_OVERLAY
//@subst fmt::Result ==> Result<(), FmtError>
//@file crates/mathml-renderer/src/symbol.rs
//@extract const COMBINING_LONG_SOLIDUS_OVERLAY
//@extract const COMBINING_LONG_VERTICAL_LINE_OVERLAY
//@file crates/mathml-renderer/src/super_char.rs
//@extract struct SuperChar #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct SuperCharChars
//@extract const VS_MASK
//@extract const CHAR_MASK
//@extract const SOLIDUS_BIT
//@extract const VERTICAL_LINE_BIT
//@extract enum VariationSelector #[derive(Clone, Copy, PartialEq, Eq, Structural)]
use VariationSelector::*;
//@extract enum OverlayChar #[derive(Clone, Copy, PartialEq, Eq, Structural)]

pub open spec fn scalar(u: u32) -> bool { u <= 0xD7FF || (0xE000 <= u && u <= 0x10FFFF) }
#[verifier::external_body]
pub fn vx_char(u: u32) -> (r: char) requires scalar(u) ensures r as u32 == u { unsafe { char::from_u32_unchecked(u) } }
#[verifier::external_body]
pub fn vx_char_opt(u: u32) -> (r: Option<char>) ensures r == (if scalar(u) { Some(u as char) } else { None }) { char::from_u32(u) }
pub broadcast proof fn axiom_char(u: u32)
    requires scalar(u)
    ensures #[trigger] (u as char) as u32 == u
{ }

pub proof fn lemma_char(c: char) ensures scalar(c as u32), (c as u32) as char == c { }
// ---- specification -------------------------------------------------------------------------------
pub open spec fn base_bits(u: u32) -> u32 { u & 0x1FFFFF }
pub open spec fn sel(u: u32) -> u32 { u >> 28 }
pub open spec fn sol(u: u32) -> bool { u & 0x08000000 != 0 }
pub open spec fn vert(u: u32) -> bool { u & 0x04000000 != 0 }
/// A base character, possibly a selector 1 to 15, possibly the overlays; nothing else.
pub open spec fn packed(u: u32) -> bool { scalar(base_bits(u)) && u & 0x03E00000 == 0 }
pub open spec fn opt(b: bool, c: char) -> Seq<char> { if b { seq![c] } else { seq![] } }
pub open spec fn sel_text(u: u32) -> Seq<char> { opt(sel(u) != 0, ((0xFDFF + sel(u)) as u32) as char) }
pub open spec fn over_text(u: u32) -> Seq<char> { opt(sol(u), '\u{338}') + opt(vert(u), '\u{20D2}') }
impl SuperChar {
    pub open spec fn ok(self) -> bool { packed(self.0) }
    pub open spec fn base(self) -> char { base_bits(self.0) as char }
    /// the characters it stands for
    pub open spec fn text(self) -> Seq<char> { seq![self.base()] + (sel_text(self.0) + over_text(self.0)) }
}
/// what the iterator has left
pub open spec fn left(u: u32) -> Seq<char> {
    if base_bits(u) != 0x1FFFFF { seq![base_bits(u) as char] + (sel_text(u) + over_text(u)) } else { sel_text(u) + over_text(u) }
}
pub open spec fn iter_ok(u: u32) -> bool { (base_bits(u) == 0x1FFFFF || scalar(base_bits(u))) && u & 0x03E00000 == 0 }
pub proof fn lemma_bits(u: u32)
    ensures
        u >> 28 <= 15,
        (u & 0xF0000000 != 0) == (u >> 28 != 0),
        base_bits(u) <= 0x1FFFFF,
        (u & 0x1FFFFF == u) ==> u >> 28 == 0 && u & 0x08000000 == 0 && u & 0x04000000 == 0 && u & 0x03E00000 == 0,
        u & 0x03E00000 == 0 && u >> 28 == 0 && u & 0x08000000 == 0 && u & 0x04000000 == 0 ==> u & 0x1FFFFF == u,
        // removing and adding parts
        base_bits(u | 0x1FFFFF) == 0x1FFFFF, sel(u | 0x1FFFFF) == sel(u), sol(u | 0x1FFFFF) == sol(u), vert(u | 0x1FFFFF) == vert(u), (u | 0x1FFFFF) & 0x03E00000 == u & 0x03E00000,
        base_bits(u & !0xF0000000u32) == base_bits(u), sel(u & !0xF0000000u32) == 0, sol(u & !0xF0000000u32) == sol(u), vert(u & !0xF0000000u32) == vert(u), (u & !0xF0000000u32) & 0x03E00000 == u & 0x03E00000,
        base_bits(u & !0x08000000u32) == base_bits(u), sel(u & !0x08000000u32) == sel(u), !sol(u & !0x08000000u32), vert(u & !0x08000000u32) == vert(u), (u & !0x08000000u32) & 0x03E00000 == u & 0x03E00000,
        base_bits(u & !0x04000000u32) == base_bits(u), sel(u & !0x04000000u32) == sel(u), sol(u & !0x04000000u32) == sol(u), !vert(u & !0x04000000u32), (u & !0x04000000u32) & 0x03E00000 == u & 0x03E00000,
        base_bits(u | 0x08000000) == base_bits(u), sel(u | 0x08000000) == sel(u), sol(u | 0x08000000), vert(u | 0x08000000) == vert(u), (u | 0x08000000) & 0x03E00000 == u & 0x03E00000,
        base_bits(u | 0x04000000) == base_bits(u), sel(u | 0x04000000) == sel(u), sol(u | 0x04000000) == sol(u), vert(u | 0x04000000), (u | 0x04000000) & 0x03E00000 == u & 0x03E00000,
{
    assert(u >> 28 <= 15) by (bit_vector);
    assert((u & 0xF0000000 != 0) == (u >> 28 != 0)) by (bit_vector);
    assert(u & 0x1FFFFF <= 0x1FFFFF) by (bit_vector);
    assert((u & 0x1FFFFF == u) ==> u >> 28 == 0 && u & 0x08000000 == 0 && u & 0x04000000 == 0 && u & 0x03E00000 == 0) by (bit_vector);
    assert(u & 0x03E00000 == 0 && u >> 28 == 0 && u & 0x08000000 == 0 && u & 0x04000000 == 0 ==> u & 0x1FFFFF == u) by (bit_vector);
    assert((u | 0x1FFFFF) & 0x1FFFFF == 0x1FFFFF && (u | 0x1FFFFF) >> 28 == u >> 28 && (u | 0x1FFFFF) & 0x08000000 == u & 0x08000000 && (u | 0x1FFFFF) & 0x04000000 == u & 0x04000000 && (u | 0x1FFFFF) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
    assert((u & !0xF0000000u32) & 0x1FFFFF == u & 0x1FFFFF && (u & !0xF0000000u32) >> 28 == 0 && (u & !0xF0000000u32) & 0x08000000 == u & 0x08000000 && (u & !0xF0000000u32) & 0x04000000 == u & 0x04000000 && (u & !0xF0000000u32) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
    assert((u & !0x08000000u32) & 0x1FFFFF == u & 0x1FFFFF && (u & !0x08000000u32) >> 28 == u >> 28 && (u & !0x08000000u32) & 0x08000000 == 0 && (u & !0x08000000u32) & 0x04000000 == u & 0x04000000 && (u & !0x08000000u32) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
    assert((u & !0x04000000u32) & 0x1FFFFF == u & 0x1FFFFF && (u & !0x04000000u32) >> 28 == u >> 28 && (u & !0x04000000u32) & 0x04000000 == 0 && (u & !0x04000000u32) & 0x08000000 == u & 0x08000000 && (u & !0x04000000u32) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
    assert((u | 0x08000000) & 0x1FFFFF == u & 0x1FFFFF && (u | 0x08000000) >> 28 == u >> 28 && (u | 0x08000000) & 0x08000000 != 0 && (u | 0x08000000) & 0x04000000 == u & 0x04000000 && (u | 0x08000000) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
    assert((u | 0x04000000) & 0x1FFFFF == u & 0x1FFFFF && (u | 0x04000000) >> 28 == u >> 28 && (u | 0x04000000) & 0x04000000 != 0 && (u | 0x04000000) & 0x08000000 == u & 0x08000000 && (u | 0x04000000) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
}
/// the base can be exchanged
pub proof fn lemma_swap(u: u32, p: u32)
    requires p <= 0x1FFFFF
    ensures ({ let w = u & !0x1FFFFFu32 | p; base_bits(w) == p && sel(w) == sel(u) && sol(w) == sol(u) && vert(w) == vert(u) && w & 0x03E00000 == u & 0x03E00000 })
{
    assert(p <= 0x1FFFFF ==> (u & !0x1FFFFFu32 | p) & 0x1FFFFF == p && (u & !0x1FFFFFu32 | p) >> 28 == u >> 28 && (u & !0x1FFFFFu32 | p) & 0x08000000 == u & 0x08000000 && (u & !0x1FFFFFu32 | p) & 0x04000000 == u & 0x04000000 && (u & !0x1FFFFFu32 | p) & 0x03E00000 == u & 0x03E00000) by (bit_vector);
}
pub proof fn lemma_build(c: u32, v: u32)
    requires c <= 0x10FFFF, v <= 15
    ensures base_bits(c | (v << 28)) == c, sel(c | (v << 28)) == v, !sol(c | (v << 28)), !vert(c | (v << 28)), (c | (v << 28)) & 0x03E00000 == 0, base_bits(c) == c, sel(c) == 0, !sol(c), !vert(c), c & 0x03E00000 == 0
{
    assert(c <= 0x10FFFF && v <= 15 ==> (c | (v << 28)) & 0x1FFFFF == c && (c | (v << 28)) >> 28 == v && (c | (v << 28)) & 0x08000000 == 0 && (c | (v << 28)) & 0x04000000 == 0 && (c | (v << 28)) & 0x03E00000 == 0) by (bit_vector);
    assert(c <= 0x10FFFF ==> c & 0x1FFFFF == c && c >> 28 == 0 && c & 0x08000000 == 0 && c & 0x04000000 == 0 && c & 0x03E00000 == 0) by (bit_vector);
}
pub open spec fn vs_number(v: VariationSelector) -> u32 { v as u32 }

/// The precomposed negation of a character, as Unicode's canonical composition with U+0338 gives it
/// (a character that is already negated stands for itself).
pub uninterp spec fn negated(c: char) -> Option<char>;
#[verifier::external_body]
pub fn vx_negated(c: char) -> (r: Option<char>) ensures r == negated(c) { unimplemented!() }
//@fn <From~VariationSelector>char::from as vx_vs_char
//@ret r
//@sig pub fn vx_vs_char(vs: VariationSelector) -> (r: char)
//@subst char::from_u32(0xFDFF + vs as u32).unwrap() ==> vx_char_opt(0xFDFF + vs as u32).unwrap()
//@spec
    ensures r == (0xFDFF + vs as u32) as u32 as char
//@endfn

impl SuperChar {
//@fn SuperChar::from_char
//@ret r
//@opt noconst
//@spec
    ensures r.ok(), r.base() == c, sel(r.0) == 0, !sol(r.0), !vert(r.0), r.text() == seq![c]
//@start
    proof { lemma_build(c as u32, 0); }
//@end
    assert(vx_ret.text() =~= seq![c]);
//@endfn
//@fn SuperChar::from_char_with_vs
//@ret r
//@opt noconst
//@spec
    ensures r.ok(), r.base() == c, sel(r.0) == vs as u32, !sol(r.0), !vert(r.0), r.text() == seq![c, (0xFDFF + vs as u32) as u32 as char]
//@start
    proof { lemma_build(c as u32, vs as u32); }
//@end
    assert(vx_ret.text() =~= seq![c, (0xFDFF + vs as u32) as u32 as char]);
//@endfn
//@fn SuperChar::chars
//@ret r
//@spec
    requires self.ok()
    ensures r.0 == self.0, iter_ok(r.0), left(r.0) == self.text()
//@endfn
//@fn SuperChar::has_vs
//@ret r
//@opt noconst
//@spec
    ensures r == (sel(self.0) != 0)
//@start
    proof { lemma_bits(self.0); }
//@endfn
//@fn SuperChar::vs
//@ret r
//@opt noconst
//@spec
    ensures match r { Some(v) => sel(self.0) != 0 && v as u32 == sel(self.0), None => sel(self.0) == 0 }
//@start
    proof { lemma_bits(self.0); }
//@endfn
//@fn SuperChar::base_char
//@ret r
//@opt noconst
//@spec
    requires self.ok()
    ensures r == self.base()
//@start
    broadcast use axiom_char;
//@endfn
//@fn SuperChar::try_as_char
//@ret r
//@opt noconst
//@spec
    requires self.ok()
    ensures match r { Some(c) => self.text() == seq![c], None => self.text().len() > 1 }
//@start
    proof { lemma_bits(self.0); }
//@endfn
//@fn SuperChar::with_overlay
//@ret r
//@subst get_precomposed_solidus_overlay ==> vx_negated
//@spec
    requires self.ok()
    ensures
        r.ok(),
        overlay is VerticalLine ==> r.base() == self.base() && sel(r.0) == sel(self.0) && sol(r.0) == sol(self.0) && vert(r.0),
        overlay is Solidus ==> vert(r.0) == vert(self.0) && sel(r.0) == sel(self.0),
        // precomposed when there is such a character and no selector
        overlay is Solidus && sel(self.0) == 0 && negated(self.base()).is_some() ==> r.base() == negated(self.base()).unwrap() && sol(r.0) == sol(self.0),
        overlay is Solidus && !(sel(self.0) == 0 && negated(self.base()).is_some()) ==> r.base() == self.base() && sol(r.0),
//@start
    proof { lemma_bits(self.0); if let Some(p) = negated(self.base()) { lemma_swap(self.0, p as u32); lemma_char(p); } }
//@endfn
}
impl VxDisp for SuperChar { open spec fn vx_text(&self) -> Seq<char> { self.text() } }
impl SuperChar {
//@fn <Display>SuperChar::fmt
//@ret r
//@sig pub fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), FmtError>)
//@subst for c in self.chars() ==> let mut vx_it = self.chars(); while let Some(c) = vx_it.next()
//@subst f.write_char(c)?; ==> f.vx_disp(&c);
//@spec
    requires self.ok()
    ensures r.is_ok(), final(f).vx_out() == old(f).vx_out() + self.vx_text()
//@loop 0
    invariant iter_ok(vx_it.0), f.vx_out() + left(vx_it.0) == old(f).vx_out() + self.text()
    ensures left(vx_it.0).len() == 0
    decreases left(vx_it.0).len()
//@loopstart 0
    let ghost b = f.vx_out();
//@loopend 0
    assert(f.vx_out() + left(vx_it.0) =~= b + (seq![c] + left(vx_it.0)));
//@afterloop 0
    assert(f.vx_out() + left(vx_it.0) =~= f.vx_out());
//@endfn
}
impl SuperCharChars {
//@fn <Iterator>SuperCharChars::next
//@ret r
//@subst vs.into() ==> vx_vs_char(vs)
//@sig pub fn next(&mut self) -> (r: Option<char>)
//@spec
    requires iter_ok(old(self).0)
    ensures
        iter_ok(final(self).0),
        match r { Some(c) => left(old(self).0) == seq![c] + left(final(self).0), None => left(old(self).0).len() == 0 && final(self).0 == old(self).0 },
//@start
    broadcast use axiom_char;
    let ghost u = self.0;
    proof { lemma_bits(self.0); }
//@endfn
}

// ---- escaping (crates/mathml-renderer/src/escaping.rs, symbol.rs) ---------------------------------
//@file crates/mathml-renderer/src/escaping.rs
//@extract struct EscapeHtml
//@file crates/mathml-renderer/src/symbol.rs
//@extract struct MathMLOperator #[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub open spec fn esc3(c: char) -> Seq<char> {
    if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else if c == '&' { "&amp;"@ } else { seq![c] }
}
pub open spec fn esc5(c: char) -> Seq<char> {
    if c == '"' { "&quot;"@ } else if c == '\'' { "&#39;"@ } else { esc3(c) }
}
/// escaped one character after the other
#[verifier::opaque]
pub open spec fn escape3(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { esc3(s[0]) + escape3(s.skip(1)) } }
#[verifier::opaque]
pub open spec fn escape5(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { escape5(s.drop_last()) + esc5(s.last()) } }
impl VxDisp for MathMLOperator { open spec fn vx_text(&self) -> Seq<char> { escape3(self.0.text()) } }
impl<'a> VxDisp for EscapeHtml<'a> { open spec fn vx_text(&self) -> Seq<char> { escape5(self.0@) } }
impl MathMLOperator {
//@fn <Display>MathMLOperator::fmt
//@ret r
//@sig pub fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), FmtError>)
//@subst for c in self.0.chars() ==> let mut vx_it = self.0.chars(); while let Some(c) = vx_it.next()
//@spec
    requires self.0.ok()
    ensures r.is_ok(), final(f).vx_out() == old(f).vx_out() + self.vx_text()
//@loop 0
    invariant iter_ok(vx_it.0), f.vx_out() + escape3(left(vx_it.0)) == old(f).vx_out() + escape3(self.0.text())
    ensures left(vx_it.0).len() == 0
    decreases left(vx_it.0).len()
//@loopstart 0
    let ghost b = f.vx_out();
    proof { reveal_with_fuel(escape3, 2); assert((seq![c] + left(vx_it.0)).skip(1) =~= left(vx_it.0)); }
//@loopend 0
    assert(f.vx_out() == b + esc3(c));
    assert(f.vx_out() + escape3(left(vx_it.0)) =~= b + (esc3(c) + escape3(left(vx_it.0))));
//@afterloop 0
    proof { reveal_with_fuel(escape3, 2); }
    assert(f.vx_out() + escape3(left(vx_it.0)) =~= f.vx_out());
//@endfn
//@fn MathMLOperator::from_char
//@ret r
//@opt noconst
//@vis pub
//@spec
    ensures r.0.ok(), r.0.text() == seq![c]
//@endfn
//@fn MathMLOperator::as_superchar
//@ret r
//@opt noconst
//@spec
    ensures r == self.0
//@endfn
//@fn MathMLOperator::with_overlay
//@ret r
//@spec
    requires self.0.ok()
    ensures
        r.0.ok(),
        overlay is VerticalLine ==> r.0.base() == self.0.base() && sel(r.0.0) == sel(self.0.0) && sol(r.0.0) == sol(self.0.0) && vert(r.0.0),
        overlay is Solidus ==> vert(r.0.0) == vert(self.0.0) && sel(r.0.0) == sel(self.0.0),
        overlay is Solidus && sel(self.0.0) == 0 && negated(self.0.base()).is_some() ==> r.0.base() == negated(self.0.base()).unwrap() && sol(r.0.0) == sol(self.0.0),
        overlay is Solidus && !(sel(self.0.0) == 0 && negated(self.0.base()).is_some()) ==> r.0.base() == self.0.base() && sol(r.0.0),
//@endfn
}
//@file crates/mathml-renderer/src/escaping.rs
impl<'a> EscapeHtml<'a> {
//@fn <Display>EscapeHtml::fmt
//@ret r
//@sig pub fn fmt<W: VxWrite>(&self, f: &mut W) -> (r: Result<(), FmtError>)
//@spec
    ensures r.is_ok(), final(f).vx_out() == old(f).vx_out() + self.vx_text()
//@start
    let ghost u = self.0@;
    let ghost b0 = f.vx_out();
    proof { reveal_with_fuel(escape5, 1); assert(u.take(0) =~= seq![]); assert(b0 + seq![] =~= b0); }
//@forvar 0 it
//@loop 0
    invariant it.seq() == u, f.vx_out() == b0 + escape5(u.take(it.index@))
//@loopstart 0
    let ghost b = f.vx_out();
    let ghost k = it.index@;
    proof { reveal_with_fuel(escape5, 2); assert(u.take(k + 1).drop_last() =~= u.take(k)); assert(u.take(k + 1).last() == u[k]); }
//@loopend 0
    assert(f.vx_out() == b + esc5(c));
    assert(f.vx_out() =~= b0 + escape5(u.take(k + 1)));
//@afterloop 0
    assert(u.take(u.len() as int) =~= u);
//@endfn
}
