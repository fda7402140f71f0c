// Classes of tokens, spacing decisions and the characters of operators, under contract
// ---- specification: the classes of tokens ----------------------------------------------------------
pub open spec fn kind_class(k: MathClassKind) -> Class {
    match k { MathClassKind::Ord => Class::Default, MathClassKind::Op => Class::Operator, MathClassKind::Bin => Class::BinaryOp, MathClassKind::Open => Class::Open,
        MathClassKind::Close => Class::Close, MathClassKind::Rel => Class::Relation, MathClassKind::Punct => Class::Punctuation, MathClassKind::Inner => Class::Inner }
}
pub open spec fn t_rel(t: Token) -> bool { t is Relation || t is ForceRelation || t is XArrow || (t matches Token::Big(_, Some(ParenType::Middle))) }
pub open spec fn t_punct(t: Token) -> bool { t is Punctuation || t is ForcePunctuation }
pub open spec fn t_open(t: Token) -> bool { t is Open || t is Left || t is SquareBracketOpen || t is ForceOpen || t is Begin || t is GroupBegin || (t matches Token::Big(_, Some(ParenType::Left))) }
pub open spec fn t_close(t: Token) -> bool { t is Close || t is SquareBracketClose || t is ForceClose || t is Right || t is Middle || (t matches Token::Big(_, Some(ParenType::Right))) }
pub open spec fn t_bin(t: Token) -> bool { t is BinaryOp || t is ForceBinaryOp }
pub open spec fn t_op(t: Token) -> bool { t is Op || t is ForceLargeOp || t is PseudoOperator || t is PseudoOperatorLimits || t is OperatorName }
/// what ends a formula, a cell, a group or the numerator of a fraction
pub open spec fn t_end(t: Token) -> bool { t is End || t is NewLine || t is NewColumn || t is GroupEnd || t is Eoi || t is InfixGenFrac }
pub open spec fn t_inner(t: Token) -> bool { t is Inner || t is ForceMathInner || t is Dots }
/// tokens that say nothing about the atom that follows: spaces, declarations, definitions, what only changes its neighbours
pub open spec fn t_none(t: Token) -> bool {
    t is MathChoice || t is Relax || t is Whitespace || t is Space || t is Overlay || t is TransformSwitch || t is NoNumber || t is Tag || t is CustomSpace || t is KernOrSkip
    || t is Limits || t is NonBreakingSpace || t is Label || t is EqRef || t is HLine || t is NewCommand || t is Let || t is Def || t is Global || t is VerticalLineDef
    || t is CustomCmdArgInput || t is CustomCmdArg
}
/// A macro acts as the first token of its body that has a class; the class of a macro whose body is stored was found when it was defined.
pub open spec fn class_of(t: Token) -> Option<Class> decreases t, 0nat via class_of_dec {
    match t {
        Token::MathOrTextMode(m, _) => if m is MathOrTextMode { Some(Class::Default) } else { class_of(*m) },
        Token::CustomCmd(_, toks) => first_class(toks@),
        Token::CustomCmdRef(_, _, c, _, _) => c,
        Token::MathChoiceInternal(c, _) => c,
        Token::MathClass(k) => Some(kind_class(k)),
        _ => if t_rel(t) { Some(Class::Relation) } else if t_punct(t) { Some(Class::Punctuation) } else if t_open(t) { Some(Class::Open) } else if t_close(t) { Some(Class::Close) }
            else if t_bin(t) { Some(Class::BinaryOp) } else if t_op(t) { Some(Class::Operator) } else if t_end(t) { Some(Class::End) } else if t_inner(t) { Some(Class::Inner) }
            else if t_none(t) { None } else { Some(Class::Default) },
    }
}
#[via_fn]
proof fn class_of_dec(t: Token) { match t { Token::CustomCmd(_, s) => { assert(decreases_to!(t => s)); assert(decreases_to!(s => s@)); } _ => {} } }
pub open spec fn first_class(s: Seq<Token>) -> Option<Class> decreases s, 1nat {
    if s.len() == 0 { None } else { match class_of(s[0]) { Some(c) => Some(c), None => first_class(s.drop_first()) } }
}
pub open spec fn rest(s: Seq<&Token>) -> Seq<Token> { s.map_values(|t: &Token| *t) }
use Token::*;
use vstd::std_specs::iter::IteratorSpec;
//@file crates/math-core/src/token.rs
impl Token {
//@fn Token::class
//@ret r
//@vis pub
//@spec
    ensures r == class_of(*self)
    decreases *self
//@start
    proof { reveal_with_fuel(class_of, 3); reveal_with_fuel(first_class, 2); }
    let ghost mut g: Seq<Token> = Seq::empty();
//@beforeloop 0
    proof { g = toks@; assert(rest(vx_it.remaining()) =~= toks@); }
//@loop 0
    invariant_except_break
        vx_found is None, vx_it.obeys_prophetic_iter_laws(), first_class(toks@) == first_class(g), g == rest(vx_it.remaining()),
        forall|i: int| 0 <= i < vx_it.remaining().len() ==> (decreases_to!(*self => *(#[trigger] vx_it.remaining()[i]))),
    ensures vx_found == first_class(toks@)
    decreases g.len()
//@loopstart 0
    proof {
        assert(*t == g[0]);
        assert(rest(vx_it.remaining()) =~= g.drop_first());
        g = g.drop_first();
        reveal_with_fuel(first_class, 2);
    }
//@endfn
}

// ---- specification: styles and spaces ---------------------------------------------------------------
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });

pub open spec fn small(s: Style) -> bool { s is Script || s is ScriptScript }
/// 0 is the biggest style
pub open spec fn size(s: Style) -> int { match s { Style::Display => 0, Style::Text => 1, Style::Script => 2, Style::ScriptScript => 3 } }
/// the style of a script, and of what is written over or under something
pub open spec fn script_style(s: Style) -> Style { if s is Display || s is Text { Style::Script } else { Style::ScriptScript } }
/// one style smaller
pub open spec fn smaller(s: Style) -> Style { match s { Style::Display => Style::Text, Style::Text => Style::Script, _ => Style::ScriptScript } }
/// What is written for one side of an operator: nothing at all leaves it to the browser's default for the character.
pub open spec fn side(none: bool, force: bool, s: MathSpacing) -> Option<MathSpacing> {
    if none { Some(MathSpacing::Zero) } else if force { Some(s) } else { None }
}
/// no thick space between a relation and what is before / after it
pub open spec fn rel_tight_before(c: Class) -> bool { c is Relation || c is Open || c is Punctuation }
pub open spec fn rel_tight_after(c: Class) -> bool { c is Relation || c is Punctuation || c is Close || c is End }
/// the operator does not act as a binary one
pub open spec fn unary_before(c: Class) -> bool { c is Operator || c is Relation || c is Open || c is Punctuation || c is BinaryOp }
pub open spec fn unary_after(c: Class) -> bool { c is Relation || c is Close || c is Punctuation || c is End }

//@file crates/mathml-renderer/src/attribute.rs
impl Style {
//@fn Style::shrink
//@ret r
//@opt noconst
//@spec
    ensures r == smaller(self)
//@endfn
//@fn Style::scriptify
//@ret r
//@opt noconst
//@spec
    ensures r == script_style(self)
//@endfn
}
//@file crates/math-core/src/parser.rs
impl ParserState<'_> {
//@fn ParserState::relation_spacing
//@ret r
//@vis pub
//@spec
    ensures
        r.0 == side(small(self.style) || rel_tight_before(prev_class), force, MathSpacing::FiveMu),
        r.1 == side(small(self.style) || rel_tight_after(next_class), force, MathSpacing::FiveMu),
//@endfn
//@fn ParserState::bin_op_spacing
//@ret r
//@vis pub
//@spec
    ensures r == (if in_sequence { side(small(self.style) || unary_before(prev_class) || unary_after(next_class), force, MathSpacing::FourMu) } else { None })
//@endfn
//@fn ParserState::punctuation_spacing
//@ret r
//@vis pub
//@spec
    ensures
        r.0 == (if force { Some(MathSpacing::Zero) } else { None }),
        r.1 == side(small(self.style) || next_class is End, force, MathSpacing::ThreeMu),
//@endfn
//@fn ParserState::mathinner_spacing
//@ret r
//@vis pub
//@spec
    ensures
        r.0 == side(small(self.style) || unary_before(prev_class), force, MathSpacing::ThreeMu),
        r.1 == side((small(self.style) && !(next_class is Operator)) || next_class is Relation || next_class is BinaryOp || next_class is Close || next_class is End, force, MathSpacing::ThreeMu),
//@endfn
}

// ---- what the parser sees ahead of it ----------------------------------------------------------------
/// the class of the next token that has one
pub uninterp spec fn class_next<'s, 'a>(tq: TokenQueue<'s, 'a>) -> Class;
/// whether that token is the character `|`
pub uninterp spec fn bar_next<'s, 'a>(tq: TokenQueue<'s, 'a>) -> bool;
/// looking further ahead does not change what comes
pub open spec fn same_ahead<'s, 'a>(o: TokenQueue<'s, 'a>, f: TokenQueue<'s, 'a>) -> bool { peeked(f) == peeked(o) && class_next(f) == class_next(o) && bar_next(f) == bar_next(o) && f.stores == o.stores }
pub open spec fn class_ahead(p: Parser, in_sequence: bool) -> Class {
    if !in_sequence { Class::Default }
    else if p.state.vertical_line_def is Some && bar_next(p.tokens) { if p.state.vertical_line_def->0 is RelSpacing { Class::Default } else { Class::Close } }
    else { class_next(p.tokens) }
}
pub open spec fn looked(o: Parser, f: Parser) -> bool { f == (Parser { tokens: f.tokens, ..o }) && same_ahead(o.tokens, f.tokens) }
impl<'state, 'arena> TokenQueue<'state, 'arena> {
    #[verifier::external_body]
    pub fn peek_class_token(&mut self) -> (r: Result<(usize, Class), Box<LatexError>>) ensures same_ahead(*old(self), *final(self)), r matches Ok(x) ==> x.1 == class_next(*old(self)) && bar_at(*final(self), x.0) == bar_next(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_bar_at(&self, i: usize) -> (r: bool) ensures r == bar_at(*self, i) { unimplemented!() }
}
pub uninterp spec fn bar_at<'s, 'a>(tq: TokenQueue<'s, 'a>, i: usize) -> bool;
pub open spec fn seq_of(p: ParseAs) -> bool { p is Sequence || p is ContinueSequence }
impl ParseAs {
//@fn ParseAs::in_sequence
//@ret r
//@vis pub
//@spec
    ensures r == seq_of(self)
//@endfn
}
/// the spaces of an operator such as a sum or `\sin`
pub open spec fn op_left(prev: Class, explicit: bool) -> Option<MathSpacing> { side(unary_before(prev) || prev is Inner, explicit, MathSpacing::ThreeMu) }
pub open spec fn op_right(next: Class, style: Style, explicit: bool) -> Option<MathSpacing> {
    side(next is Relation || next is Punctuation || next is Open || next is Close || next is End || (small(style) && next is Inner), explicit, MathSpacing::ThreeMu)
}
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn Parser::peek_class_token
//@ret r
//@vis pub
//@spec
    ensures looked(*old(self), *final(self)), r matches Ok(c) ==> c == class_ahead(*old(self), in_sequence)
//@endfn
//@fn Parser::mathop_spacing
//@ret r
//@vis pub
//@spec
    ensures looked(*old(self), *final(self)), r matches Ok(s) ==> s.0 == op_left(prev_class, explicit) && s.1 == op_right(class_ahead(*old(self), seq_of(parse_as)), old(self).state.style, explicit)
//@endfn
}

// ---- atoms -------------------------------------------------------------------------------------------
pub fn vx_or(a: OpAttrs, b: OpAttrs) -> (r: OpAttrs) ensures r.b == a.b | b.b { OpAttrs { b: a.b | b.b } }
/// the operator of a single character
pub uninterp spec fn op_char(c: char) -> MathMLOperator;
#[verifier::external_body]
pub fn vx_op(c: char) -> (r: MathMLOperator) ensures r == op_char(c) { unimplemented!() }
/// the operator of a character that may carry a variation selector
pub uninterp spec fn op_of(c: BMPChar, vs1: bool) -> MathMLOperator;
pub uninterp spec fn op_punct(c: Punct) -> MathMLOperator;
pub uninterp spec fn op_bmp(c: BMPOperator) -> MathMLOperator;
pub uninterp spec fn is_bar(o: OrdLike) -> bool;
#[verifier::external_body]
pub fn vx_is_bar(o: &OrdLike) -> (r: bool) ensures r == is_bar(*o) { unimplemented!() }
impl Rel {
    pub fn category(&self) -> (r: RelCategory) ensures r == self.cat { self.cat }
    #[verifier::external_body]
    pub fn as_op(&self) -> (r: MathMLOperator) ensures r == op_of(self.char, self.has_vs1) { unimplemented!() }
}
impl OrdLike {
    pub fn category(&self) -> (r: OrdCategory) ensures r == self.cat { self.cat }
    #[verifier::external_body]
    pub fn as_op(&self) -> (r: MathMLOperator) ensures r == op_of(self.char, self.has_vs1) { unimplemented!() }
}
impl Bin {
    #[verifier::external_body]
    pub fn as_op(&self) -> (r: MathMLOperator) ensures r == op_of(self.char, self.has_vs1) { unimplemented!() }
}
impl Op {
    pub fn category(&self) -> (r: OpCategory) ensures r == self.cat { self.cat }
    #[verifier::external_body]
    pub fn as_op(&self) -> (r: MathMLOperator) ensures r == op_of(self.char, self.has_vs1) { unimplemented!() }
}
impl BMPOperator {
    #[verifier::external_body]
    pub fn as_op(self) -> (r: MathMLOperator) ensures r == op_bmp(self) { unimplemented!() }
}
impl Punct {
    #[verifier::external_body]
    pub fn as_op(&self) -> (r: MathMLOperator) ensures r == op_punct(*self) { unimplemented!() }
}
pub open spec fn none() -> Option<MathSpacing> { None }
pub open spec fn zero() -> Option<MathSpacing> { Some(MathSpacing::Zero) }
pub open spec fn is_op(n: Node, op: MathMLOperator, left: Option<MathSpacing>, right: Option<MathSpacing>) -> bool {
    n matches Node::Operator { op: o, left: l, right: r, size, .. } && o == op && l == left && r == right && size is None
}
pub open spec fn rel_left(prev: Class, style: Style, force: bool) -> Option<MathSpacing> { side(small(style) || rel_tight_before(prev), force, MathSpacing::FiveMu) }
pub open spec fn rel_right(next: Class, style: Style, force: bool) -> Option<MathSpacing> { side(small(style) || rel_tight_after(next), force, MathSpacing::FiveMu) }
pub open spec fn bin_space(in_seq: bool, prev: Class, next: Class, style: Style, force: bool) -> Option<MathSpacing> {
    if in_seq { side(small(style) || unary_before(prev) || unary_after(next), force, MathSpacing::FourMu) } else { None }
}
/// A binary operator that gets no space is an ordinary symbol for what comes next.
pub open spec fn bin_class(space: Option<MathSpacing>) -> Class { if space == zero() { Class::Default } else { Class::BinaryOp } }
pub open spec fn punct_left(force: bool) -> Option<MathSpacing> { if force { zero() } else { None } }
pub open spec fn punct_right(next: Class, style: Style, force: bool) -> Option<MathSpacing> { side(small(style) || next is End, force, MathSpacing::ThreeMu) }
pub open spec fn inner_left(prev: Class, style: Style, force: bool) -> Option<MathSpacing> { side(small(style) || unary_before(prev), force, MathSpacing::ThreeMu) }
pub open spec fn inner_right(next: Class, style: Style, force: bool) -> Option<MathSpacing> {
    side((small(style) && !(next is Operator)) || next is Relation || next is BinaryOp || next is Close || next is End, force, MathSpacing::ThreeMu)
}
//@fn relation_attrs
//@ret r
//@vis pub
//@spec
    ensures r == (match rel_category { RelCategory::A => OpAttrs::STRETCHY_FALSE, RelCategory::Default => OpAttrs { b: 0 }, RelCategory::DandForceDefault => OpAttrs::FORM_INFIX })
//@endfn
