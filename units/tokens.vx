// The tokens of the parser, with everything they carry
//@file crates/mathml-renderer/src/super_char.rs
//@extract struct SuperChar #[derive(Clone, Copy)]
//@extract enum OverlayChar #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/symbol.rs
//@extract struct MathMLOperator #[derive(Clone, Copy)]
//@extract struct BMPChar #[derive(Clone, Copy)]
//@extract struct BMPOperator #[derive(Clone, Copy)]
//@extract enum OrdCategory #[derive(Clone, Copy)]
//@extract enum OpCategory #[derive(Clone, Copy)]
//@extract enum BinCategory #[derive(Clone, Copy)]
//@extract enum RelCategory #[derive(Clone, Copy)]
//@extract struct OrdLike #[derive(Clone, Copy)]
//@extract struct Op #[derive(Clone, Copy)]
//@extract struct Bin #[derive(Clone, Copy)]
//@extract struct Rel #[derive(Clone, Copy)]
//@extract struct Punct #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/length.rs
//@extract enum LengthUnit #[derive(Clone, Copy)]
//@extract struct LengthValue #[derive(Clone, Copy)]
//@extract struct Length #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/attribute.rs
//@bitflags OpAttrs #[derive(Clone, Copy)]
//@bitflags Notation #[derive(Clone, Copy)]
//@extract enum Size #[derive(Clone, Copy)]
//@extract enum FracAttr #[derive(Clone, Copy)]
//@extract enum Style #[derive(Clone, Copy)]
//@extract enum HtmlTextStyle #[derive(Clone, Copy)]
//@extract enum HtmlTextSize #[derive(Clone, Copy)]
//@extract enum TextTransform #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/table.rs
//@extract enum LineType #[derive(Clone, Copy)]
//@file crates/math-core/src/character_class.rs
//@extract enum Class #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum ParenType #[derive(Clone, Copy)]
//@extract enum MathVariant #[derive(Clone, Copy)]
//@file crates/math-core/src/custom_cmds.rs
//@extract enum CmdSource #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file crates/math-core/src/environments.rs
//@extract enum Env #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@file crates/math-core/src/string_pool.rs
//@extract struct InternedStr #[derive(Clone, Copy)]
//@file crates/math-core/src/token.rs
//@extract enum DefineMode #[derive(Clone, Copy)]
//@extract enum VerticalLineDef #[derive(Clone, Copy)]
//@extract enum MathClassKind #[derive(Clone, Copy)]
//@extract enum TextToken #[derive(Clone, Copy)]
//@extract enum InfixDelim #[derive(Clone, Copy)]
//@extract enum ForceStretchy #[derive(Clone, Copy)]
//@extract enum UnitKind #[derive(Clone, Copy)]
//@extract enum PhantomKind #[derive(Clone, Copy)]
//@extract enum LimitsKind #[derive(Clone, Copy)]
//@extract enum PrimeKind #[derive(Clone, Copy)]
//@extract enum Mode #[derive(Clone, Copy)]
//@extract enum EndToken #[derive(Clone, Copy)]
//@extract struct MathChoice
//@extract enum Token #[derive(Clone, Copy)]
//@extract struct Span #[derive(Clone, Copy)]
//@extract struct TokSpan #[derive(Clone, Copy)]
impl Span {
//@fn Span::new
//@opt noconst
//@ret r
//@spec
    ensures r.start == start, r.end == end
//@endfn
//@fn Span::start
//@opt noconst
//@ret r
//@spec
    ensures r == self.start
//@endfn
//@fn Span::end
//@opt noconst
//@ret r
//@spec
    ensures r == self.end
//@endfn
//@fn Span::zero_width
//@opt noconst
//@ret r
//@spec
    ensures r.start == at, r.end == at
//@endfn
    pub fn default() -> (r: Span) ensures r.start == 0, r.end == 0 { Span { start: 0, end: 0 } }
}
use vstd::std_specs::convert::*;
impl From<Span> for core::ops::Range<usize> {
//@fn <From~Span>Range::from
//@ret r
//@vis
//@spec
    ensures r.start == span.start, r.end == span.end
//@endfn
}
impl FromSpecImpl<Span> for core::ops::Range<usize> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(span: Span) -> Self { core::ops::Range { start: span.start, end: span.end } }
}
impl TokSpan {
//@fn TokSpan::new
//@opt noconst
//@ret r
//@spec
    ensures r.0 == token, r.1 == span
//@endfn
//@fn TokSpan::token
//@ret r
//@spec
    ensures *r == self.0
//@endfn
//@fn TokSpan::into_token
//@ret r
//@spec
    ensures r == self.0
//@endfn
//@fn TokSpan::into_parts
//@ret r
//@spec
    ensures r == (self.0, self.1)
//@endfn
//@fn TokSpan::span
//@ret r
//@spec
    ensures r == self.1
//@endfn
}
impl From<Token> for TokSpan {
//@fn <From~Token>TokSpan::from
//@ret r
//@vis
//@endfn
}
impl FromSpecImpl<Token> for TokSpan {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(token: Token) -> Self { TokSpan(token, Span { start: 0, end: 0 }) }
}
/// a token as it is in math mode
pub open spec fn math(t: Token) -> Token { match t { Token::MathOrTextMode(m, _) => *m, _ => t } }
impl Token {
//@fn Token::unwrap_math_ref
//@ret r
//@spec
    ensures *r == math(*self)
//@endfn
//@fn Token::unwrap_math
//@ret r
//@spec
    ensures r == math(self)
//@endfn
}
