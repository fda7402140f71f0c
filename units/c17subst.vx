// rewrites of c17_atoms and c17_arms
//@subst matches!(self.tokens.get_token_by_index(token_idx).map(TokSpan::token), Some(Token::MathOrTextMode(Token::Ord(symbol::VERTICAL_LINE), '|'))) ==> self.tokens.vx_bar_at(token_idx)
//@subst matches!(ord, symbol::VERTICAL_LINE) ==> vx_is_bar(&ord)
//@subst OpAttrs::SYMMETRIC_TRUE | OpAttrs::LARGEOP_TRUE | OpAttrs::FORCE_MOVABLE_LIMITS ==> vx_or(vx_or(OpAttrs::SYMMETRIC_TRUE, OpAttrs::LARGEOP_TRUE), OpAttrs::FORCE_MOVABLE_LIMITS)
//@subst OpAttrs::SYMMETRIC_TRUE | OpAttrs::LARGEOP_TRUE ==> vx_or(OpAttrs::SYMMETRIC_TRUE, OpAttrs::LARGEOP_TRUE)
//@subst OpAttrs::STRETCHY_TRUE | OpAttrs::SYMMETRIC_TRUE ==> vx_or(OpAttrs::STRETCHY_TRUE, OpAttrs::SYMMETRIC_TRUE)
//@subst symbol::LEFT_SQUARE_BRACKET.as_op() ==> vx_op('[')
//@subst symbol::RIGHT_SQUARE_BRACKET.as_op() ==> vx_op(']')
//@subst const { symbol::INVISIBLE_SEPARATOR.as_op() } ==> vx_op('\u{2063}')
//@subst attrs | OpAttrs::STRETCHY_FALSE ==> vx_or(attrs, OpAttrs::STRETCHY_FALSE)
//@subst attrs |= OpAttrs::STRETCHY_TRUE ==> attrs.insert(OpAttrs::STRETCHY_TRUE)
//@subst attrs |= OpAttrs::STRETCHY_FALSE ==> attrs.insert(OpAttrs::STRETCHY_FALSE)
//@subst attrs |= OpAttrs::FORM_INFIX ==> attrs.insert(OpAttrs::FORM_INFIX)
//@subst attrs |= OpAttrs::FORM_PREFIX ==> attrs.insert(OpAttrs::FORM_PREFIX)
//@subst attrs |= OpAttrs::FORM_POSTFIX ==> attrs.insert(OpAttrs::FORM_POSTFIX)
//@subst toks.iter().find_map(Token::class) ==> toks.iter().find_map(|t| t.class())
//@subst symbol::RelCategory ==> RelCategory
//@subst cfg!(debug_assertions) ==> false
//@subst mem::replace ==> vx_replace
//@subst RowAttrs::DEFAULT ==> vx_row_attrs()
