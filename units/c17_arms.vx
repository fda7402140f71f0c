//@include prelude.vx
//@subst ref tok @ ==> tok @
//@subst return Ok(Parsed::Node(class, target)) ==> return Ok(Ok(vx_deref(target)))
//@subst vec![self.commit(Node::Frac { num, denom, lt_value, lt_unit, attr, })] ==> vx_vec1(self.commit(Node::Frac { num, denom, lt_value, lt_unit, attr }))
//@subst *closing_tok.token() != Token::SquareBracketClose ==> !vx_is_close_bracket(closing_tok.token())
//@subst &FULL_STOP_TOKEN ==> vx_p if vx_full_stop(vx_p)
//@subst const SQ_L_BRACKET: StretchableOp = StretchableOp::from_ord(symbol::LEFT_SQUARE_BRACKET).unwrap(); ==> let SQ_L_BRACKET: StretchableOp = vx_delim('[');
//@subst const SQ_R_BRACKET: StretchableOp = StretchableOp::from_ord(symbol::RIGHT_SQUARE_BRACKET).unwrap(); ==> let SQ_R_BRACKET: StretchableOp = vx_delim(']');
//@include c17subst.vx
//@include tokens.vx
//@include penv.vx
//@include c17env.vx
#[verifier::external_body]
pub fn vx_deref<'a>(n: &'a Node<'a>) -> (r: Node<'a>) ensures r == *n { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
pub fn vx_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { core::mem::replace(d, s) }
pub fn vx_is_close_bracket(t: &Token) -> (r: bool) ensures r == (*t is SquareBracketClose) { matches!(t, Token::SquareBracketClose) }
/// the character `.` as the lexer gives it
pub uninterp spec fn full_stop(t: Token) -> bool;
#[verifier::external_body]
pub fn vx_full_stop(t: &Token) -> (r: bool) ensures r == full_stop(*t), r ==> *t is Letter { unimplemented!() }
pub fn vx_row_attrs() -> (r: RowAttrs) ensures r == row_default() { RowAttrs { color: None, style: None, math_shift_compact: false } }
pub open spec fn row_default() -> RowAttrs { RowAttrs { color: None, style: None, math_shift_compact: false } }

// ---- delimiters --------------------------------------------------------------------------------------
//@file crates/math-core/src/character_class.rs
//@extract enum Stretchy #[derive(Clone, Copy)]
//@extract enum DelimiterSpacing #[derive(Clone, Copy)]
//@extract struct StretchableOp #[derive(Clone, Copy)]
/// which characters can be delimiters, how they stretch by themselves, and what spaces a browser gives them
pub open spec fn ord_delim(o: OrdLike) -> Option<StretchableOp> {
    let op = op_of(o.char, o.has_vs1);
    match o.cat {
        OrdCategory::F | OrdCategory::G | OrdCategory::FG => Some(StretchableOp { op, stretchy: Stretchy::Always, spacing: DelimiterSpacing::Zero }),
        OrdCategory::FGandForceDefault => Some(StretchableOp { op, stretchy: Stretchy::PrePostfix, spacing: DelimiterSpacing::InfixRelation }),
        OrdCategory::K => Some(StretchableOp { op, stretchy: Stretchy::Never, spacing: DelimiterSpacing::Zero }),
        OrdCategory::KButUsedToBeB => Some(StretchableOp { op, stretchy: Stretchy::Never, spacing: DelimiterSpacing::Other }),
        _ => None,
    }
}
pub open spec fn rel_delim(r: Rel) -> Option<StretchableOp> { if r.cat is A { Some(StretchableOp { op: op_of(r.char, r.has_vs1), stretchy: Stretchy::AlwaysAsymmetric, spacing: DelimiterSpacing::Relation }) } else { None } }
pub open spec fn forced_delim(op: MathMLOperator, s: ForceStretchy) -> Option<StretchableOp> {
    match s { ForceStretchy::Yes => Some(StretchableOp { op, stretchy: Stretchy::Never, spacing: DelimiterSpacing::Zero }), ForceStretchy::Pretend => Some(StretchableOp { op, stretchy: Stretchy::Always, spacing: DelimiterSpacing::Zero }), ForceStretchy::No => None }
}
pub uninterp spec fn bracket(c: char) -> StretchableOp;
#[verifier::external_body]
pub fn vx_delim(c: char) -> (r: StretchableOp) ensures r == bracket(c) { unimplemented!() }
pub open spec fn delim(t: Token) -> Option<StretchableOp> {
    match t {
        Token::Ord(o) => ord_delim(o), Token::Open(o) => ord_delim(o), Token::Close(o) => ord_delim(o), Token::Relation(r) => rel_delim(r),
        Token::ForceOpen(op, s) => forced_delim(op, s), Token::ForceClose(op, s) => forced_delim(op, s),
        Token::SquareBracketOpen => Some(bracket('[')), Token::SquareBracketClose => Some(bracket(']')), _ => None,
    }
}
impl StretchableOp {
//@fn StretchableOp::as_op
//@ret r
//@opt noconst
//@spec
    ensures r == self.op
//@endfn
//@fn StretchableOp::from_ord
//@ret r
//@opt noconst
//@spec
    ensures r == ord_delim(ord)
//@endfn
//@fn StretchableOp::from_rel
//@ret r
//@opt noconst
//@spec
    ensures r == rel_delim(rel)
//@endfn
//@fn StretchableOp::from_force_stretchy
//@ret r
//@opt noconst
//@spec
    ensures r == forced_delim(op, stretch)
//@endfn
}
/// the node at one side of a fence: it stretches, and has no space of its own
pub open spec fn is_fence(n: Node, d: Option<StretchableOp>) -> bool {
    n matches Node::Operator { op, attrs, size, left, right } && size is None && (match d {
        Some(d) => op == d.op && attrs.b == (if d.stretchy is Never { 2u16 } else { 0 }) && (if d.spacing is Relation || d.spacing is Other { left == zero() && right == zero() } else { left is None && right is None }),
        None => op == op_char('\u{2063}') && attrs.b == 0 && left is None && right is None,
    })
}
/// A fence around some content.
pub open spec fn is_fenced(n: Node, content: Seq<&Node>, open: Option<StretchableOp>, close: Option<StretchableOp>, style: Option<Style>) -> bool {
    n matches Node::Row { nodes, attrs } && attrs == (RowAttrs { style, ..row_default() }) && nodes@.len() == content.len() + 2
        && is_fence(*nodes@[0], open) && is_fence(*nodes@.last(), close) && nodes@.subrange(1, nodes@.len() - 1) == content && (content.len() == 1 ==> nodes@[1] == content[0])
}
//@fn fenced>>to_operator as vx_to_operator
//@ret r
//@vis pub
//@spec
    ensures is_fence(r, delim)
//@endfn
//@fn fenced
//@ret r
//@subst to_operator ==> vx_to_operator
//@spec
    ensures is_fenced(r, content@, open, close, style)
//@end
    proof { assert(vx_ret->Row_nodes@.subrange(1, vx_ret->Row_nodes@.len() - 1) =~= old_content); }
//@start
    let ghost old_content = content@;
//@endfn
//@file crates/math-core/src/parser.rs
//@fn extract_delimiter
//@ret r
//@vis pub
//@spec
    ensures match r { Ok(d) => delim(tok.0) == Some(d), Err(_) => delim(tok.0) is None }
//@endfn
//@fn middle_stretch_attrs
//@ret r
//@vis pub
//@spec
    ensures r.b == (match op.stretchy { Stretchy::PrePostfix | Stretchy::Never => 2u16, Stretchy::AlwaysAsymmetric => 128, Stretchy::Always => 0 })
//@endfn

// ---- parsing: every parser below is a function of the parser's state and of its arguments ---------------
//@extract enum SequenceEnd
//@extract enum BoundStarterKind
//@extract struct Bounds #[derive(Clone, Copy)]
//@extract struct BoundsWithLimits #[derive(Clone, Copy)]
pub uninterp spec fn taken<'s, 'a>(tq: TokenQueue<'s, 'a>) -> ParseResult<TokSpan>;
/// the class and the node a token is parsed into, and the parser afterwards
pub uninterp spec fn parsed<'s, 'a>(p: Parser<'s, 'a>, t: ParseResult<TokSpan>, parse_as: ParseAs, prev: Class) -> (Class, Node<'a>);
pub uninterp spec fn after_token<'s, 'a>(p: Parser<'s, 'a>, t: ParseResult<TokSpan>, parse_as: ParseAs, prev: Class) -> Parser<'s, 'a>;
pub uninterp spec fn sequence<'s, 'a>(p: Parser<'s, 'a>, end: SequenceEnd, prev: Class, keep: bool) -> Seq<&'a Node<'a>>;
pub uninterp spec fn after_sequence<'s, 'a>(p: Parser<'s, 'a>, end: SequenceEnd, prev: Class, keep: bool) -> Parser<'s, 'a>;
pub uninterp spec fn scripts<'s, 'a>(p: Parser<'s, 'a>, first: Option<(Token, Span)>) -> BoundsWithLimits<'a>;
pub uninterp spec fn after_scripts<'s, 'a>(p: Parser<'s, 'a>, first: Option<(Token, Span)>) -> Parser<'s, 'a>;
/// A construct that was parsed leaves the style, the font, the meaning of the separators and the marking of the right edge as they were.
pub open spec fn scoped(o: Parser, f: Parser) -> bool {
    f.state.style == o.state.style && f.state.transform == o.state.transform && f.state.env.in_cell == o.state.env.in_cell && f.state.right_boundary_hack == o.state.right_boundary_hack && f.arena == o.arena
}
pub open spec fn skipped<'s, 'a>(p: Parser<'s, 'a>) -> Parser<'s, 'a> { Parser { tokens: advanced(p.tokens), ..p } }
/// the next argument
pub open spec fn arg<'s, 'a>(p: Parser<'s, 'a>, parse_as: ParseAs) -> Node<'a> { parsed(skipped(p), taken(p.tokens), parse_as, Class::Default).1 }
pub open spec fn after_arg<'s, 'a>(p: Parser<'s, 'a>, parse_as: ParseAs) -> Parser<'s, 'a> { after_token(skipped(p), taken(p.tokens), parse_as, Class::Default) }
pub open spec fn styled<'s, 'a>(p: Parser<'s, 'a>, style: Style) -> Parser<'s, 'a> { Parser { state: ParserState { style, ..p.state }, ..p } }
impl<'state, 'arena> Parser<'state, 'arena> {
    #[verifier::external_body]
    pub fn next_token(&mut self) -> (r: ParseResult<TokSpan>) ensures *final(self) == skipped(*old(self)), r == taken(old(self).tokens), r matches Ok(t) ==> t.0 == math(peeked(old(self).tokens).0.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_token(&mut self, cur_tokloc: ParseResult<TokSpan>, parse_as: ParseAs, prev_class: Class) -> (r: ParseResult<(Class, &'arena Node<'arena>)>)
        ensures r matches Ok(x) ==> x.0 == parsed(*old(self), cur_tokloc, parse_as, prev_class).0 && *x.1 == parsed(*old(self), cur_tokloc, parse_as, prev_class).1
            && *final(self) == after_token(*old(self), cur_tokloc, parse_as, prev_class) && scoped(*old(self), *final(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_sequence(&mut self, sequence_end: SequenceEnd, prev_class: Class, keep_end_token: bool) -> (r: ParseResult<Vec<&'arena Node<'arena>>>)
        ensures r matches Ok(x) ==> x@ == sequence(*old(self), sequence_end, prev_class, keep_end_token) && *final(self) == after_sequence(*old(self), sequence_end, prev_class, keep_end_token) && scoped(*old(self), *final(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_bounds(&mut self, first: Option<(Token, Span)>) -> (r: ParseResult<BoundsWithLimits<'arena>>)
        ensures r matches Ok(x) ==> x == scripts(*old(self), first) && *final(self) == after_scripts(*old(self), first) && scoped(*old(self), *final(self))
    { unimplemented!() }
//@fn Parser::commit
//@ret r
//@vis pub
//@spec
    ensures *r == node
//@endfn
//@fn Parser::parse_next
//@ret r
//@opt resultmap
//@vis pub
//@spec
    ensures r matches Ok(n) ==> *n == arg(*old(self), parse_as) && *final(self) == after_arg(*old(self), parse_as) && scoped(*old(self), *final(self))
//@endfn
//@fn Parser::parse_sequence_if_in_sequence
//@ret r
//@vis pub
//@spec
    ensures r matches Ok(x) ==> seq_of(parse_as) && x@ == sequence(*old(self), sequence_end, prev_class, keep_end_token) && *final(self) == after_sequence(*old(self), sequence_end, prev_class, keep_end_token) && scoped(*old(self), *final(self)),
        !seq_of(parse_as) ==> r is Err,
//@endfn
}
/// one node, or several in a row
pub open spec fn is_row(n: Node, nodes: Seq<&Node>) -> bool {
    if nodes.len() == 1 { n == *nodes[0] } else { n matches Node::Row { nodes: s, attrs } && s@ == nodes && attrs == row_default() }
}

pub proof fn lemma_flags()
    ensures 128u16 | 256u16 == 384u16, 384u16 | 8u16 == 392u16, 2u16 | 128u16 == 130u16, 32u16 | 2u16 == 34u16, 16u16 | 1u16 == 17u16, 64u16 | 1u16 == 65u16, 0u16 | 1u16 == 1u16,
        forall|b: u16| #[trigger] (b | 32u16) == b | 32, 0u16 | 32u16 == 32u16, 0u16 | 16u16 == 16u16, 0u16 | 64u16 == 64u16
{
    assert(128u16 | 256u16 == 384u16 && 384u16 | 8u16 == 392u16 && 2u16 | 128u16 == 130u16 && 32u16 | 2u16 == 34u16 && 16u16 | 1u16 == 17u16 && 64u16 | 1u16 == 65u16 && 0u16 | 1u16 == 1u16
        && 0u16 | 32u16 == 32u16 && 0u16 | 16u16 == 16u16 && 0u16 | 64u16 == 64u16) by (bit_vector);
}
pub uninterp spec fn no_length() -> Length;
pub open spec fn zero_length() -> Length { Length { value: LengthValue(0.0f32), unit: LengthUnit::Rem } }
impl Length {
    #[verifier::external_body]
    pub fn none() -> (r: Length) ensures r == no_length() { unimplemented!() }
    pub fn zero() -> (r: Length) ensures r == zero_length() { Length { value: LengthValue(0.0), unit: LengthUnit::Rem } }
    pub fn into_parts(self) -> (r: (LengthValue, LengthUnit)) ensures r.0 == self.value, r.1 == self.unit { (self.value, self.unit) }
}
pub open spec fn hacked<'s, 'a>(p: Parser<'s, 'a>, on: bool) -> Parser<'s, 'a> { Parser { state: ParserState { right_boundary_hack: on, ..p.state }, ..p } }
pub open spec fn in_cell<'s, 'a>(p: Parser<'s, 'a>, on: bool) -> Parser<'s, 'a> { Parser { state: ParserState { env: EnvState { in_cell: on, ..p.state.env }, ..p.state }, ..p } }
/// the style of the parts of a fraction
pub open spec fn part_style(s: Style, attr: Option<FracAttr>) -> Style {
    match attr { Some(FracAttr::CFracStyle) | Some(FracAttr::DisplayStyleTrue) => Style::Text, Some(FracAttr::DisplayStyleFalse) => Style::Script, None => smaller(s) }
}
pub proof fn lemma_styles(s: Style)
    ensures size(smaller(s)) == (if size(s) < 3 { size(s) + 1 } else { 3 }), size(script_style(s)) == (if size(s) < 2 { 2int } else { 3 })
{ }
pub open spec fn is_frac(n: Node, num: Node, denom: Node, l: Length, attr: Option<FracAttr>) -> bool {
    n matches Node::Frac { num: a, denom: b, lt_value, lt_unit, attr: t } && *a == num && *b == denom && lt_value == l.value && lt_unit == l.unit && t == attr
}
// ---- scripts -----------------------------------------------------------------------------------------
impl<'arena> Bounds<'arena> {
//@fn Bounds::is_trivial
//@ret r
//@vis pub
//@opt noconst
//@spec
    ensures r == (self.0 is None && self.1 is None)
//@endfn
//@fn Bounds::try_wrap_node_underover
//@ret r
//@vis pub
//@spec
    ensures match r { None => self.0 is None && self.1 is None, Some(n) => !(self.0 is None && self.1 is None) && scripted(n, *node, *self, true) }
//@endfn
//@fn Bounds::try_wrap_node_subsup
//@ret r
//@vis pub
//@spec
    ensures match r { None => self.0 is None && self.1 is None, Some(n) => !(self.0 is None && self.1 is None) && scripted(n, *node, *self, false) }
//@endfn
}
pub open spec fn is_trivial(b: Bounds) -> bool { b.0 is None && b.1 is None }
/// `base` with the scripts `b`: below and above it, or beside it
pub open spec fn scripted(n: Node, base: Node, b: Bounds, under: bool) -> bool {
    match (b.0, b.1) {
        (None, None) => n == base,
        (Some(l), None) => if under { n matches Node::Under { target, symbol } && *target == base && symbol == l } else { n matches Node::Sub { target, symbol } && *target == base && symbol == l },
        (None, Some(u)) => if under { n matches Node::Over { target, symbol } && *target == base && symbol == u } else { n matches Node::Sup { target, symbol } && *target == base && symbol == u },
        (Some(l), Some(u)) => if under { n matches Node::UnderOver { target, under, over } && *target == base && under == l && over == u } else { n matches Node::SubSup { target, sub, sup } && *target == base && sub == l && sup == u },
    }
}
pub fn vx_no_bounds<'a>() -> (r: BoundsWithLimits<'a>) ensures is_trivial(r.bounds), r.limits_span is None { BoundsWithLimits { bounds: Bounds(None, None), limits_span: None } }
pub open spec fn limits_of(b: BoundsWithLimits) -> Option<LimitsKind> { match b.limits_span { Some(l) => Some(l.0), None => None } }
impl<'arena> BoundsWithLimits<'arena> {
//@fn BoundsWithLimits::limits
//@ret r
//@vis pub
//@subst self.limits_span.map(|ls| ls.0) ==> match self.limits_span { Some(ls) => Some(ls.0), None => None }
//@spec
    ensures r == limits_of(self)
//@endfn
}
/// whether scripts go below and above an operator: `\limits` and `\nolimits` say so, otherwise the operator does (the browser moves movable ones)
pub open spec fn under_over(l: Option<LimitsKind>, by_default: bool) -> bool { match l { None => by_default, Some(LimitsKind::Never) => false, Some(_) => true } }
pub fn vx_single<'s, 'a>(s: &'s [&'a Node<'a>]) -> (r: Option<&'a Node<'a>>) ensures match r { Some(n) => s@.len() == 1 && n == s@[0], None => s@.len() != 1 } { if s.len() == 1 { Some(s[0]) } else { None } }
/// the content of a group as one node; an operator on its own loses the spaces it has as part of a formula where these don't count
pub open spec fn collected(n: Node, nodes: Seq<&Node>, reset: bool) -> bool {
    if nodes.len() == 1 {
        if reset && nodes[0] is Operator { n matches Node::Operator { op, attrs, size, left, right } && op == nodes[0]->Operator_op && attrs == nodes[0]->Operator_attrs && size is None && left is None && right is None } else { n == *nodes[0] }
    } else { n matches Node::Row { nodes: s, attrs } && s@ == nodes && attrs == row_default() }
}
//@fn node_vec_to_node
//@ret r
//@vis pub
//@subst let [single] = nodes ==> let Some(single) = vx_single(nodes)
//@subst if let Node::Operator { op, attrs, .. } = **single ==> if let Node::Operator { op, attrs, .. } = *single
//@spec
    ensures collected(*r, nodes@, reset_spacing)
//@endfn

/// The spaces `\mathrel` and the like give what they are applied to.
pub open spec fn class_spaces(k: MathClassKind, prev: Class, next: Class, style: Style, in_seq: bool) -> (Option<MathSpacing>, Option<MathSpacing>) {
    match k {
        MathClassKind::Op => (op_left(prev, true), op_right(next, style, true)),
        MathClassKind::Bin => (bin_space(in_seq, prev, next, style, true), bin_space(in_seq, prev, next, style, true)),
        MathClassKind::Rel => (rel_left(prev, style, true), rel_right(next, style, true)),
        MathClassKind::Punct => (punct_left(true), punct_right(next, style, true)),
        MathClassKind::Inner => (inner_left(prev, style, true), inner_right(next, style, true)),
        _ => (zero(), zero()),
    }
}
pub open spec fn empty_row(n: Node) -> bool { n matches Node::Row { nodes, attrs } && nodes@.len() == 0 && attrs == row_default() }
/// `n` with these spaces around it
pub open spec fn classed(m: Node, n: Node, l: Option<MathSpacing>, r: Option<MathSpacing>) -> bool {
    if n is Operator { m matches Node::Operator { op, size, left, right, .. } && op == n->Operator_op && size == n->Operator_size && left == l && right == r }
    else if empty_row(n) { is_op(m, op_char('\u{2063}'), l, r) }
    else { m matches Node::Padded { node, width_0, height_0, left, right, voffset } && *node == n && !width_0 && !height_0 && left == l && right == r && voffset is None }
}

/// the node the scripts are attached to
pub open spec fn the_base(n: Node) -> bool { n is Operator || n is PseudoOp }
pub open spec fn is_named(n: Node, name: &str, l: Option<MathSpacing>, r: Option<MathSpacing>, a: u16) -> bool { n matches Node::PseudoOp { attrs, left, right, name: s } && s@ == name@ && left == l && right == r && attrs.b == a }
pub open spec fn self_stretching(c: OrdCategory) -> bool { c is F || c is G || c is FG || c is FGandForceDefault }

/// a delimiter or a dot for none
pub open spec fn fence_tok(t: ParseResult<TokSpan>) -> Option<StretchableOp> { if t is Ok && !full_stop((t->Ok_0).0) { delim((t->Ok_0).0) } else { None } }

#[verifier::external_body]
pub fn vx_opt_replace<T>(d: &mut Option<T>, s: T) -> (r: Option<T>) ensures r == *old(d), *final(d) == Some(s) { d.replace(s) }
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn value:Parser::parse_one_token:Token.Style as vx_style
//@sig fn vx_style(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Style
    // an explicit style acts on what comes up to the end of the group, and ends there
    ensures r matches Ok(x) ==> ({ let s = vx_tok->Style_0; let a = styled(*old(self), s); let end = SequenceEnd::AnyEndToken;
        seq_of(parse_as) && (x matches Ok(Node::Row { nodes, attrs }) && attrs == (RowAttrs { style: Some(s), ..row_default() }) && nodes@ == sequence(a, end, prev_class, true))
            && *final(self) == styled(after_sequence(a, end, prev_class, true), old(self).state.style) && scoped(*old(self), *final(self)) }),
//@endfn
//@fn value:Parser::parse_one_token:Frac as vx_frac
//@sig fn vx_frac(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@subst cur_token ==> vx_tok
//@subst OPEN_PAREN ==> vx_delim('(')
//@subst CLOSE_PAREN ==> vx_delim(')')
//@spec
    requires vx_tok is Frac || vx_tok is Binom
    ensures r matches Ok(x) ==> ({
        let attr = if vx_tok is Frac { vx_tok->Frac_0 } else { vx_tok->Binom_0 };
        let a = styled(*old(self), part_style(old(self).state.style, attr)); let b = after_arg(a, ParseAs::Arg);
        &&& *final(self) == styled(after_arg(b, ParseAs::Arg), old(self).state.style) && scoped(*old(self), *final(self))
        &&& x matches Ok(n) && (if vx_tok is Frac { is_frac(n, arg(a, ParseAs::Arg), arg(b, ParseAs::Arg), no_length(), attr) }
            else { n is Row && ({ let f = n->Row_nodes@[1]; is_fenced(n, seq![f], Some(bracket('(')), Some(bracket(')')), None) && is_frac(*f, arg(a, ParseAs::Arg), arg(b, ParseAs::Arg), zero_length(), attr) }) })
    })
//@endfn
//@fn value:Parser::parse_one_token:Overset as vx_overset
//@sig fn vx_overset(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@subst cur_token ==> vx_tok
//@spec
    requires vx_tok is Overset || vx_tok is Underset
    ensures r matches Ok(x) ==> ({
        let a = styled(*old(self), script_style(old(self).state.style)); let b = styled(after_arg(a, ParseAs::Arg), old(self).state.style);
        let c = hacked(skipped(b), true); let n = parsed(c, taken(b.tokens), ParseAs::ContinueSequence, prev_class); let d = after_token(c, taken(b.tokens), ParseAs::ContinueSequence, prev_class);
        &&& *final(self) == hacked(d, old(self).state.right_boundary_hack) && scoped(*old(self), *final(self))
        // the construct has the class of its base
        &&& *final(class) == n.0
        &&& if vx_tok is Overset { x matches Ok(Node::Over { symbol, target }) && *symbol == arg(a, ParseAs::Arg) && *target == n.1 }
            else { x matches Ok(Node::Under { symbol, target }) && *symbol == arg(a, ParseAs::Arg) && *target == n.1 }
    })
//@endfn
//@fn value:Parser::parse_one_token:MathClass as vx_math_class
//@sig fn vx_math_class(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@subst Node::Row { nodes: [], attrs: RowAttrs { color: None, style: None, math_shift_compact: false, }, } => ==> Node::Row { nodes, attrs: RowAttrs { color: None, style: None, math_shift_compact: false, }, } if nodes.len() == 0 =>
//@spec
    requires vx_tok is MathClass
    ensures r matches Ok(x) ==> ({
        let k = vx_tok->MathClass_0; let p = in_cell(skipped(*old(self)), false); let t = taken(old(self).tokens);
        let n = parsed(p, t, parse_as, prev_class).1; let q = in_cell(after_token(p, t, parse_as, prev_class), old(self).state.env.in_cell);
        let next = class_ahead(q, seq_of(parse_as)); let style = old(self).state.style;
        let sp = class_spaces(k, prev_class, next, style, seq_of(parse_as));
        looked(q, *final(self)) && scoped(*old(self), *final(self)) && *final(class) == kind_class(k) && (x matches Ok(m) && classed(m, n, sp.0, sp.1))
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.Op as vx_op_arm
//@sig fn vx_op_arm(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@subst BoundsWithLimits::default() ==> vx_no_bounds()
//@afterlet target
    proof { assert(the_base(*target)); }
//@spec
    requires vx_tok is Op
    ensures r matches Ok(x) ==> ({
        let t = vx_tok->Op_0; let b = if t.cat is C { None } else { Some(scripts(*old(self), None)) }; let p = if t.cat is C { *old(self) } else { after_scripts(*old(self), None) };
        let l = match b { Some(b) => limits_of(b), None => None }; let movable = t.cat is J;
        let left = op_left(prev_class, false); let right = op_right(class_ahead(p, seq_of(parse_as)), old(self).state.style, false);
        &&& looked(p, *final(self)) && scoped(*old(self), *final(self)) && *final(class) is Operator
        &&& x matches Ok(n) && (match b {
            Some(b) => exists|o: Node| #[trigger] the_base(o) && is_op(o, op_of(t.char, t.has_vs1), left, right) && scripted(n, o, b.bounds, under_over(l, movable))
                && o->Operator_attrs.b == (if is_trivial(b.bounds) { 0u16 } else if l == Some(LimitsKind::Display) && !movable { 8 } else if l == Some(LimitsKind::Always) && movable { 4 } else { 0 }),
            None => is_op(n, op_of(t.char, t.has_vs1), left, right) && n->Operator_attrs.b == 0,
        })
    })
//@endfn
//@fn value:Parser::parse_one_token:ForceLargeOp as vx_force_large_op
//@sig fn vx_force_large_op(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@start
    proof { lemma_flags(); }
//@afterlet target
    proof { assert(is_op(*target, target->Operator_op, left, right)); }
//@spec
    requires vx_tok is ForceLargeOp
    ensures r matches Ok(x) ==> ({
        let b = scripts(*old(self), None); let p = after_scripts(*old(self), None); let l = limits_of(b);
        let left = op_left(prev_class, true); let right = op_right(class_ahead(p, seq_of(parse_as)), old(self).state.style, true);
        &&& looked(p, *final(self)) && scoped(*old(self), *final(self)) && *final(class) is Operator
        &&& x matches Ok(n) && (exists|o: Node| #[trigger] is_op(o, vx_tok->ForceLargeOp_0, left, right) && scripted(n, o, b.bounds, under_over(l, true))
                && o->Operator_attrs.b == (if !is_trivial(b.bounds) && (l is None || l == Some(LimitsKind::Display)) { 392u16 } else { 384 }))
    })
//@endfn
//@fn value:Parser::parse_one_token:PseudoOperator as vx_pseudo_op
//@sig fn vx_pseudo_op(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@afterlet target
    proof { assert(the_base(*target)); }
//@spec
    requires vx_tok is PseudoOperator || vx_tok is PseudoOperatorLimits
    ensures r matches Ok(x) ==> ({
        let name = if vx_tok is PseudoOperator { vx_tok->PseudoOperator_0 } else { vx_tok->PseudoOperatorLimits_0 };
        let b = scripts(*old(self), None); let p = after_scripts(*old(self), None); let l = limits_of(b);
        let a = if !is_trivial(b.bounds) && (l == Some(LimitsKind::Display) || (l is None && vx_tok is PseudoOperatorLimits)) { 8u16 } else { 0 };
        let left = op_left(prev_class, true); let right = op_right(class_ahead(p, seq_of(parse_as)), old(self).state.style, true);
        &&& looked(p, *final(self)) && scoped(*old(self), *final(self)) && *final(class) is Operator
        &&& x matches Ok(n) && (exists|o: Node| #[trigger] the_base(o) && is_named(o, name, left, right, a) && scripted(n, o, b.bounds, under_over(l, vx_tok is PseudoOperatorLimits)))
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.Ord as vx_ord
//@sig fn vx_ord(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@start
    proof { lemma_flags(); }
//@spec
    requires vx_tok is Ord
    ensures *final(self) == *old(self), *final(class) == *old(class), r matches Ok(Ok(n)) && ({
        let t = vx_tok->Ord_0; let v = old(self).state.vertical_line_def; let op = op_of(t.char, t.has_vs1);
        if is_bar(t) && v is Some {
            let s = if v->0 is OpSpacingStretchy { Some(MathSpacing::ThreeMu) } else { None };
            is_op(n, op, s, s) && n->Operator_attrs.b == (if v->0 is RelSpacing { 32u16 } else { 34 })
        } else {
            // no stretching, and no space of its own
            let s = if t.cat is KButUsedToBeB || t.cat is FGandForceDefault { zero() } else { None };
            is_op(n, op, s, s) && n->Operator_attrs.b == (if self_stretching(t.cat) { 1u16 } else { 0 })
        }
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.Open as vx_open_close
//@sig fn vx_open_close(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@start
    proof { lemma_flags(); }
//@spec
    requires vx_tok is Open || vx_tok is Close
    ensures *final(self) == *old(self), *final(class) == (if vx_tok is Open { Class::Open } else { *old(class) }), r matches Ok(Ok(n)) && ({
        let t = if vx_tok is Open { vx_tok->Open_0 } else { vx_tok->Close_0 }; let both = t.cat is FG || t.cat is FGandForceDefault || t.cat is DE;
        is_op(n, op_of(t.char, t.has_vs1), None, None)
            && n->Operator_attrs.b == (if both { if vx_tok is Open { 16u16 } else { 64 } } else { 0 }) + (if self_stretching(t.cat) { 1u16 } else { 0 })
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.SquareBracketClose as vx_bracket_close
//@sig fn vx_bracket_close(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is SquareBracketClose
    ensures *final(self) == *old(self), *final(class) == *old(class), r matches Ok(Ok(n)) && is_op(n, op_char(']'), None, None) && n->Operator_attrs.b == 1
//@endfn
//@fn value:Parser::parse_one_token:Token.Left as vx_left
//@sig fn vx_left(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Left
    ensures r matches Ok(x) ==> ({
        let p = skipped(*old(self)); let end = SequenceEnd::EndToken(EndToken::Right); let q = after_sequence(p, end, Class::Open, false);
        *final(self) == skipped(q) && scoped(*old(self), *final(self)) && *final(class) == *old(class)
            && (x matches Ok(n) && is_fenced(n, sequence(p, end, Class::Open, false), fence_tok(taken(old(self).tokens)), fence_tok(taken(q.tokens)), None))
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.Middle as vx_middle
//@sig fn vx_middle(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Middle
    ensures r matches Ok(x) ==> (*final(self) == skipped(*old(self)) && *final(class) is Open && taken(old(self).tokens) is Ok && ({
        let d = delim((taken(old(self).tokens)->Ok_0).0);
        d is Some && (x matches Ok(n) && ({ let s = if (d->0).spacing is Zero { None } else { zero() }; is_op(n, (d->0).op, s, s) }))
    }))
//@endfn
//@fn value:Parser::parse_one_token:Token.Big as vx_big
//@sig fn vx_big(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@start
    proof { lemma_flags(); }
//@spec
    requires vx_tok is Big
    ensures r matches Ok(x) ==> (looked(skipped(*old(self)), *final(self)) && taken(old(self).tokens) is Ok && ({
        let d = delim((taken(old(self).tokens)->Ok_0).0); let side = vx_tok->Big_1; let next = class_ahead(skipped(*old(self)), seq_of(parse_as)); let style = old(self).state.style;
        &&& *final(class) == (match side { Some(ParenType::Left) => Class::Open, Some(ParenType::Right) => Class::Close, Some(ParenType::Middle) => Class::Relation, None => Class::Default })
        &&& d is Some && (x matches Ok(n) && ({
            let d = d->0; let own = d.spacing is InfixRelation || d.spacing is Relation;
            n matches Node::Operator { op, size, left, right, .. } && op == d.op && size == Some(vx_tok->Big_0)
                && (if side == Some(ParenType::Middle) { left == rel_left(prev_class, style, !own) && right == rel_right(next, style, !own) }
                    // no space: by the form where there is one, explicitly otherwise
                    else if d.spacing is Zero || (d.spacing is InfixRelation && side is Some) { left is None && right is None } else { left == zero() && right == zero() })
        }))
    }))
//@endfn
//@fn value:Parser::parse_one_token:Token.Phantom as vx_phantom
//@sig fn vx_phantom(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Phantom
    ensures r matches Ok(x) ==> *final(self) == after_arg(*old(self), ParseAs::Arg) && scoped(*old(self), *final(self)) && x is Ok
//@endfn
//@fn value:Parser::parse_one_token:Token.Accent as vx_accent
//@sig fn vx_accent(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Accent
    ensures r matches Ok(x) ==> *final(self) == after_arg(*old(self), ParseAs::ArgWithSpace) && scoped(*old(self), *final(self)) && *final(class) == *old(class)
        && (if vx_tok->Accent_1 { x matches Ok(Node::OverAccent(o, a, n)) && o == op_bmp(vx_tok->Accent_0) && a == vx_tok->Accent_2 && *n == arg(*old(self), ParseAs::ArgWithSpace) } else { x matches Ok(Node::UnderAccent(o, a, n)) && o == op_bmp(vx_tok->Accent_0) && a == vx_tok->Accent_2 && *n == arg(*old(self), ParseAs::ArgWithSpace) })
//@endfn
//@fn value:Parser::parse_one_token:Token.Enclose as vx_enclose
//@sig fn vx_enclose(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Enclose
    ensures r matches Ok(x) ==> *final(self) == after_arg(*old(self), ParseAs::ArgWithSpace) && scoped(*old(self), *final(self)) && *final(class) == *old(class)
        && (x matches Ok(Node::Enclose { content, notation }) && *content == arg(*old(self), ParseAs::ArgWithSpace) && notation == vx_tok->Enclose_0)
//@endfn
//@fn value:Parser::parse_one_token:Token.Sqrt as vx_sqrt
//@sig fn vx_sqrt(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Sqrt
    ensures r matches Ok(x) ==> ({
        let p = skipped(*old(self)); let t = taken(old(self).tokens); let end = SequenceEnd::EndToken(EndToken::SquareBracketClose); let q = after_sequence(p, end, Class::Open, false);
        &&& scoped(*old(self), *final(self)) && *final(class) == *old(class)
        &&& if t is Ok && (t->Ok_0).0 is SquareBracketOpen {
            *final(self) == after_arg(q, ParseAs::Arg) && (x matches Ok(Node::Root(d, c)) && collected(*d, sequence(p, end, Class::Open, false), true) && *c == arg(q, ParseAs::Arg))
        } else { *final(self) == after_arg(*old(self), ParseAs::Arg) && (x matches Ok(Node::Sqrt(c)) && *c == arg(*old(self), ParseAs::Arg)) }
    })
//@endfn
//@fn arm:Parser::parse_one_token:Token.GroupBegin as vx_group
//@sig fn vx_group(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class) -> (r: ParseResult<Parsed<'arena>>)
//@spec
    requires vx_tok is GroupBegin
    ensures r matches Ok(x) ==> ({
        let end = SequenceEnd::EndToken(EndToken::GroupClose); let prev = if parse_as is ContinueSequence { prev_class } else { Class::Open };
        *final(self) == after_sequence(*old(self), end, prev, false) && scoped(*old(self), *final(self))
            && (x matches Parsed::Node(c, n) && c is Default && collected(*n, sequence(*old(self), end, prev, false), parse_as is Arg))
    })
//@endfn
//@fn arm:Parser::parse_one_token:Token.Transform as vx_transform
//@sig fn vx_transform(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class) -> (r: ParseResult<Parsed<'arena>>)
//@subst self.state.transform.replace(tf) ==> vx_opt_replace(&mut self.state.transform, tf)
//@spec
    requires vx_tok is Transform
    ensures r matches Ok(x) ==> ({
        let a = Parser { state: ParserState { transform: Some(vx_tok->Transform_0), ..old(self).state }, ..*old(self) };
        let b = after_arg(a, ParseAs::Arg);
        *final(self) == (Parser { state: ParserState { transform: old(self).state.transform, ..b.state }, ..b }) && scoped(*old(self), *final(self))
            && (x matches Parsed::Node(c, n) && c is Close && *n == arg(a, ParseAs::Arg))
    })
//@endfn
}
} // verus!
fn main() {}
