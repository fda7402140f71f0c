//@include prelude.vx
//@include c17subst.vx
//@include tokens.vx
//@include penv.vx
//@include c17env.vx
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn value:Parser::parse_one_token:Relation as vx_relation
//@sig fn vx_relation(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Relation
    ensures *final(self) == *old(self), *final(class) is Relation,
        r matches Ok(Ok(n)) && ({ let t = vx_tok->Relation_0; is_op(n, op_of(t.char, t.has_vs1), rel_left(prev_class, old(self).state.style, false), rel_right(next_class, old(self).state.style, false)) })
//@endfn
//@fn value:Parser::parse_one_token:ForceRelation as vx_force_relation
//@sig fn vx_force_relation(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceRelation
    ensures *final(self) == *old(self), *final(class) is Relation,
        r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceRelation_0, if seq_of(parse_as) { rel_left(prev_class, old(self).state.style, true) } else { None }, if seq_of(parse_as) { rel_right(next_class, old(self).state.style, true) } else { None })
//@endfn
//@fn value:Parser::parse_one_token:Punctuation as vx_punctuation
//@sig fn vx_punctuation(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Punctuation
    ensures *final(self) == *old(self), *final(class) is Punctuation,
        r matches Ok(Ok(n)) && is_op(n, op_punct(vx_tok->Punctuation_0), punct_left(false), punct_right(next_class, old(self).state.style, false))
//@endfn
//@fn value:Parser::parse_one_token:ForcePunctuation as vx_force_punctuation
//@sig fn vx_force_punctuation(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForcePunctuation
    ensures *final(self) == *old(self), *final(class) is Punctuation,
        r matches Ok(Ok(n)) && is_op(n, vx_tok->ForcePunctuation_0, punct_left(true), punct_right(next_class, old(self).state.style, true))
//@endfn
//@fn value:Parser::parse_one_token:BinaryOp as vx_binary_op
//@sig fn vx_binary_op(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is BinaryOp
    ensures *final(self) == *old(self), ({
        let t = vx_tok->BinaryOp_0; let b = bin_space(seq_of(parse_as), prev_class, next_class, old(self).state.style, false);
        (r matches Ok(Ok(n)) && is_op(n, op_of(t.char, t.has_vs1), b, b)) && *final(class) == bin_class(b)
    })
//@endfn
//@fn value:Parser::parse_one_token:ForceBinaryOp as vx_force_binary_op
//@sig fn vx_force_binary_op(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceBinaryOp
    ensures *final(self) == *old(self), ({
        let b = bin_space(seq_of(parse_as), prev_class, next_class, old(self).state.style, true);
        (r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceBinaryOp_0, b, b)) && *final(class) == bin_class(b)
    })
//@endfn
//@fn value:Parser::parse_one_token:Token.Inner as vx_inner
//@sig fn vx_inner(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Inner
    ensures *final(self) == *old(self), *final(class) is Inner,
        r matches Ok(Ok(n)) && ({ let t = vx_tok->Inner_0; is_op(n, op_of(t.char, t.has_vs1), inner_left(prev_class, old(self).state.style, false), inner_right(next_class, old(self).state.style, false)) })
//@endfn
//@fn value:Parser::parse_one_token:ForceMathInner as vx_force_inner
//@sig fn vx_force_inner(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceMathInner
    ensures *final(self) == *old(self), *final(class) is Inner,
        r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceMathInner_0, inner_left(prev_class, old(self).state.style, true), inner_right(next_class, old(self).state.style, true))
//@endfn
//@fn value:Parser::parse_one_token:ForceOrd as vx_force_ord
//@sig fn vx_force_ord(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceOrd
    ensures *final(self) == *old(self), *final(class) is Default, r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceOrd_0, zero(), zero())
//@endfn
//@fn value:Parser::parse_one_token:ForceOpen as vx_force_open
//@sig fn vx_force_open(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceOpen
    ensures *final(self) == *old(self), *final(class) is Open, r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceOpen_0, zero(), zero())
//@endfn
//@fn value:Parser::parse_one_token:ForceClose as vx_force_close
//@sig fn vx_force_close(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is ForceClose
    ensures *final(self) == *old(self), *final(class) is Close, r matches Ok(Ok(n)) && is_op(n, vx_tok->ForceClose_0, zero(), zero())
//@endfn
//@fn value:Parser::parse_one_token:SquareBracketOpen as vx_bracket_open
//@sig fn vx_bracket_open(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is SquareBracketOpen
    ensures *final(self) == *old(self), *final(class) is Open, r matches Ok(Ok(n)) && is_op(n, op_char('['), None, None) && n->Operator_attrs == OpAttrs::STRETCHY_FALSE
//@endfn
//@fn value:Parser::parse_one_token:Space as vx_space
//@sig fn vx_space(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, prev_class: Class, next_class: Class, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Space
    // spaces pass the class before them on
    ensures *final(self) == *old(self), *final(class) == prev_class, r matches Ok(Ok(Node::Space(l))) && l == vx_tok->Space_0
//@endfn
}
} // verus!
fn main() {}
