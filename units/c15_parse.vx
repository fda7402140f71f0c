// The colour a command selects (the arm for \color in crates/math-core/src/parser.rs)
//@include prelude.vx
//@include tokens.vx
//@include penv.vx
//@include utf8.vx
//@include float.vx
//@include atof.vx
//@include colours.vx
pub open spec fn is_hex(h: u8) -> bool { (48 <= h <= 57) || (97 <= h <= 102) || (65 <= h <= 70) }
pub open spec fn hex_value(h: u8) -> int { if h <= 57 { h - 48 } else if h <= 70 { h - 65 + 10 } else { h - 97 + 10 } }
/// the stretches between the occurrences of an ASCII character
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else {
        let p = pieces(s.drop_last(), c);
        if s.last() == c { p.push(seq![]) } else { p.update(p.len() - 1, p.last().push(s.last())) }
    }
}
pub uninterp spec fn without_blanks(s: Seq<char>) -> Seq<char>;
/// comparison and conversion of floating-point numbers: functions of the operands
pub uninterp spec fn within(x: f32, lo: f32, hi: f32) -> bool;
pub uninterp spec fn to_u8(x: f32) -> u8;
/// one component: a number in the range
pub open spec fn component(s: Seq<char>, hi: f32) -> Option<f32> {
    match number(sbytes(without_blanks(s))) { Some(x) => if within(x, 0.0f32, hi) { Some(x) } else { None }, None => None }
}
/// a fraction, scaled and rounded
pub open spec fn scaled(x: f32) -> u8 { to_u8(fadd(fmul(x, 255.0f32), 0.5f32)) }
pub open spec fn three(d: Seq<char>, hi: f32) -> Option<(f32, f32, f32)> {
    let p = pieces(d, ',');
    if p.len() != 3 { None } else { match (component(p[0], hi), component(p[1], hi), component(p[2], hi)) { (Some(r), Some(g), Some(b)) => Some((r, g, b)), _ => None } }
}
pub open spec fn six(b: Seq<u8>) -> Option<(u8, u8, u8)> {
    if b.len() == 6 && forall|i: int| 0 <= i < 6 ==> is_hex(#[trigger] b[i]) {
        Some(((hex_value(b[0]) * 16 + hex_value(b[1])) as u8, (hex_value(b[2]) * 16 + hex_value(b[3])) as u8, (hex_value(b[4]) * 16 + hex_value(b[5])) as u8))
    } else { None }
}
/// what a model and a description denote
pub open spec fn denoted(model: Seq<char>, d: Seq<char>) -> Option<(u8, u8, u8)> {
    if model == "rgb"@ { match three(d, 1.0f32) { Some((r, g, b)) => Some((scaled(r), scaled(g), scaled(b))), None => None } }
    else if model == "RGB"@ { match three(d, 255.0f32) { Some((r, g, b)) => Some((to_u8(r), to_u8(g), to_u8(b))), None => None } }
    else if model == "HTML"@ { six(sbytes(d)) }
    else { None }
}
/// the letters of the tokens before position `n` of the queue
pub open spec fn letters(tq: TokenQueue, n: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { letters(tq, (n - 1) as nat) + vx_letter(math(peeked(nth(tq, (n - 1) as nat)).0.0)) }
}
/// the characters of a packed symbol (C03)
pub uninterp spec fn sc_text(c: SuperChar) -> Seq<char>;
pub open spec fn vx_letter(t: Token) -> Seq<char> { match t { Token::Letter(c, _) => sc_text(c), _ => seq![] } }
/// up to position `n` there are letters only, and there the bracket closes
pub open spec fn model_ends(tq: TokenQueue, n: nat) -> bool {
    (forall|i: nat| i < n ==> math(#[trigger] peeked(nth(tq, i)).0.0) is Letter) && math(peeked(nth(tq, n)).0.0) is SquareBracketClose
}
/// The colour at the front of the queue: `[model]{description}` or `{name}`.
pub open spec fn colour_at(tq: TokenQueue, c: (u8, u8, u8)) -> bool {
    if peeked(tq).0.0 is SquareBracketOpen { exists|n: nat| #[trigger] model_ends(advanced(tq), n) && denoted(letters(advanced(tq), n), string_arg(nth(advanced(tq), n + 1))) == Some(c) }
    else { named_colour(string_arg(tq)) == Some(c) }
}
// ---- stand-ins -------------------------------------------------------------------------------------
/// the string builder of the arena: what was pushed
#[verifier::external_body]
pub struct StringBuilder { x: () }
impl View for StringBuilder { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Buffer {
    #[verifier::external_body]
    pub fn get_builder(&mut self) -> (r: StringBuilder) ensures r@ == Seq::<char>::empty() { unimplemented!() }
}
impl StringBuilder {
    #[verifier::external_body]
    pub fn push_superchar(&mut self, c: SuperChar) ensures final(self)@ == old(self)@ + sc_text(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish<'a>(self, arena: &'a Arena) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct VxSplit<'a> { x: &'a () }
impl<'a> VxSplit<'a> {
    pub uninterp spec fn rest(self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(s) => old(self).rest().len() > 0 && s@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn split_on_ascii<'a>(s: &'a str, c: u8) -> (r: VxSplit<'a>) ensures c < 128 ==> r.rest() == pieces(s@, c as char) { unimplemented!() }
pub trait VxTrim { fn vx_trim(&self) -> &str; }
impl VxTrim for str {
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) ensures r@ == without_blanks(self@) { self.trim() }
}
/// the closure that tests for a range
#[derive(Clone, Copy)]
pub struct VxIn { pub lo: f32, pub hi: f32 }
pub fn vx_in(lo: f32, hi: f32) -> (r: VxIn) ensures r == (VxIn { lo, hi }) { VxIn { lo, hi } }
pub trait VxFilter: Sized { fn vx_filter(self, f: VxIn) -> Option<f32>; }
impl VxFilter for Option<f32> {
    fn vx_filter(self, f: VxIn) -> (r: Option<f32>)
        ensures r == (match self { Some(x) => if within(x, f.lo, f.hi) { Some(x) } else { None }, None => None })
    { match self { Some(x) => if vx_within(&x, f.lo, f.hi) { Some(x) } else { None }, None => None } }
}
#[verifier::external_body]
pub fn vx_within(x: &f32, lo: f32, hi: f32) -> (r: bool) ensures r == within(*x, lo, hi) { (lo..=hi).contains(x) }
#[verifier::external_body]
pub fn vx_to_u8(x: f32) -> (r: u8) ensures r == to_u8(x) { x as u8 }
pub fn vx_six_hex(b: &[u8]) -> (r: Option<(u8, u8, u8, u8, u8, u8)>)
    ensures match r {
        Some(x) => b@.len() == 6 && x == (b@[0], b@[1], b@[2], b@[3], b@[4], b@[5]) && forall|i: int| 0 <= i < 6 ==> is_hex(#[trigger] b@[i]),
        None => !(b@.len() == 6 && forall|i: int| 0 <= i < 6 ==> is_hex(#[trigger] b@[i])),
    }
{
    if b.len() != 6 { return None; }
    let mut i = 0;
    while i < 6
        invariant b@.len() == 6, 0 <= i <= 6, forall|k: int| 0 <= k < i ==> is_hex(#[trigger] b@[k])
        decreases 6 - i
    {
        let h = b[i];
        if !((48 <= h && h <= 57) || (97 <= h && h <= 102) || (65 <= h && h <= 70)) { assert(!is_hex(b@[i as int])); return None; }
        i += 1;
    }
    Some((b[0], b[1], b[2], b[3], b[4], b[5]))
}
#[verifier::external_body]
pub fn get_color(name: &str) -> (r: Option<(u8, u8, u8)>) ensures r == named_colour(name@) { unimplemented!() }
pub open spec fn default_attrs() -> RowAttrs { vx_row_default() }
pub uninterp spec fn vx_row_default() -> RowAttrs;
#[verifier::external_body]
pub fn vx_row_attrs() -> (r: RowAttrs) ensures r == vx_row_default() { unimplemented!() }
//@file crates/math-core/src/parser.rs
//@fn Parser::parse_one_token>>hex
//@ret r
//@vis pub
//@spec
    ensures is_hex(h) ==> r == hex_value(h), r <= 15
//@endfn
//@extract enum SequenceEnd
impl<'state, 'arena> Parser<'state, 'arena> {
    #[verifier::external_body]
    pub fn parse_sequence_if_in_sequence(&mut self, parse_as: ParseAs, span: Span, sequence_end: SequenceEnd, prev_class: Class, keep_end_token: bool) -> (r: ParseResult<Vec<&'arena Node<'arena>>>)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_token(&mut self) -> (r: ParseResult<TokSpan>) ensures *final(self) == (Parser { tokens: final(self).tokens, ..*old(self) }), final(self).tokens == advanced(old(self).tokens) { unimplemented!() }
//@fn value:Parser::parse_one_token:Color as vx_color
//@sig fn vx_color(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst Token::SquareBracketOpen == *self.tokens.peek().token() ==> vx_is_bracket(self.tokens.peek().token())
//@subst next.as_ref().map(TokSpan::token) ==> vx_tok_of(&next)
//@subst match color_description.as_bytes() ==> match vx_six_hex(color_description.as_bytes())
//@subst digits @ &[r1, r2, g1, g2, b1, b2] if digits.iter().all(u8::is_ascii_hexdigit) ==> Some((r1, r2, g1, g2, b1, b2))
//@subst |v: &f32| (0.0..=1.0).contains(v) ==> vx_in(0.0, 1.0)
//@subst |v: &f32| (0.0..=255.0).contains(v) ==> vx_in(0.0, 255.0)
//@subst .filter ==> .vx_filter
//@subst .trim() ==> .vx_trim()
//@subst (r * 255.0 + 0.5) as u8 ==> vx_to_u8(r * 255.0 + 0.5)
//@subst (g * 255.0 + 0.5) as u8 ==> vx_to_u8(g * 255.0 + 0.5)
//@subst (b * 255.0 + 0.5) as u8 ==> vx_to_u8(b * 255.0 + 0.5)
//@subst (r as u8, g as u8, b as u8) ==> (vx_to_u8(r), vx_to_u8(g), vx_to_u8(b))
//@subst RowAttrs::DEFAULT ==> vx_row_attrs()
//@spec
    requires vx_tok is Color
    ensures r matches Ok(Ok(n)) ==> (n matches Node::Row { attrs, .. } && attrs.color is Some && colour_at(old(self).tokens, (attrs.color->0)) && attrs == (RowAttrs { color: attrs.color, ..vx_row_default() })),
        !(peeked(old(self).tokens).0.0 is SquareBracketOpen) && (r matches Ok(Err(_))) ==> named_colour(string_arg(old(self).tokens)) is None
//@start
    broadcast use {axiom_mul32, axiom_add32};
    let ghost mut gn: nat = 0;
    let ghost tq = old(self).tokens;
//@beforeloop 0
    let ghost t0 = self.tokens;
    let ghost mut vx_n: nat = 0;
    proof { reveal_with_fuel(nth, 2); assert(t0 == advanced(old(self).tokens)); }
//@loop 0
    invariant_except_break
        self.tokens == nth(t0, vx_n), type_name_builder@ == letters(t0, vx_n), forall|i: nat| i < vx_n ==> math(#[trigger] peeked(nth(t0, i)).0.0) is Letter
    invariant peeked(old(self).tokens).0.0 is SquareBracketOpen
    ensures
        self.tokens == nth(t0, vx_n + 1), type_name_builder@ == letters(t0, vx_n), model_ends(t0, vx_n)
//@loopstart 0
    proof { reveal_with_fuel(nth, 2); }
//@loopend 0
    proof { vx_n = vx_n + 1; }
//@afterloop 0
    proof { gn = vx_n; }
//@afterlet color
    assert(colour_at(tq, color)) by {
        if peeked(tq).0.0 is SquareBracketOpen {
            assert(model_ends(advanced(tq), gn));
            reveal_strlit("rgb"); reveal_strlit("RGB"); reveal_strlit("HTML");
            assert("rgb"@[0] != "RGB"@[0] && "HTML"@[0] != "rgb"@[0] && "HTML"@[0] != "RGB"@[0]);
            let d = string_arg(nth(advanced(tq), gn + 1));
            let model = letters(advanced(tq), gn);
            assert(model == "rgb"@ || model == "RGB"@ || model == "HTML"@);
            assert(model == "HTML"@ ==> six(sbytes(d)) == Some(color));
            assert(model == "RGB"@ ==> denoted(model, d) == Some(color));
            assert(model == "rgb"@ ==> denoted(model, d) == Some(color));
        }
    }
//@endfn
}
pub fn vx_is_bracket(t: &Token) -> (r: bool) ensures r == (t is SquareBracketOpen) { matches!(t, Token::SquareBracketOpen) }
pub fn vx_tok_of<'x>(t: &'x ParseResult<TokSpan>) -> (r: Result<&'x Token, &'x Box<LatexError>>)
    ensures match (r, *t) { (Ok(a), Ok(b)) => *a == b.0, (Err(_), Err(_)) => true, _ => false }
{ match t { Ok(t) => Ok(t.token()), Err(e) => Err(e) } }
} // verus!
fn main() {}
