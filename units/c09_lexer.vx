//@include prelude.vx
//@include utf8.vx
//@subst mem::replace ==> vx_replace
//@subst self.input.next().map_or((self.input_length, None), |(idx, ch)| (idx, Some(ch))) ==> match self.input.next() { Some((idx, ch)) => (idx, Some(ch)), None => (self.input_length, None) }
//@subst CharIndices<'source> ==> VxCharIndices<'source>
//@subst input.char_indices() ==> vx_char_indices(input)
//@subst input.len() ==> vx_len(input)
//@subst next.is_ascii_digit() ==> vx_digit(next)
//@subst c.is_ascii_digit() ==> vx_digit(c)
//@subst c.is_ascii_alphabetic() ==> vx_alpha(c)
//@subst self.peek.1.is_some_and(|ch| ch.is_ascii_alphabetic()) ==> vx_some_alpha(self.peek.1)
//@subst self.peek.1.is_some_and(|ch| { ch.is_ascii_alphabetic() || ch.is_ascii_whitespace() || matches!(ch, '*') }) ==> vx_some_env(self.peek.1)
//@subst ch.is_ascii_whitespace() ==> vx_ws(ch)
//@subst first.is_some_and(|ch| ch.is_ascii_alphabetic() || matches!(ch, '*')) ==> vx_some_alpha_star(first)
//@subst first.map_or(0, char::len_utf8) ==> vx_len_opt(first)
//@subst closing.map_or(0, char::len_utf8) ==> vx_len_opt(closing)
//@subst self.peek.1 == Some('*') ==> vx_is(self.peek.1, '*')
//@subst self.peek.1 != Some('\n') ==> !vx_is(self.peek.1, '\n')
//@subst ch != Some('%') ==> !vx_is(ch, '%')
//@subst first != Some('{') ==> !vx_is(first, '{')
//@subst closing == Some('}') ==> vx_is(closing, '}')
//@subst self.input_string.get_unwrap(start..end) ==> self.input_string.vx_range(start, end)
//@subst self.input_string.get_unwrap(loc..self.peek.0) ==> self.input_string.vx_range(loc, self.peek.0)
//@subst u8::try_from(param_num) ==> vx_u8(param_num)
//@subst (0..=8).contains(&param_num) ==> (0 <= param_num && param_num <= 8)
//@subst Token::Letter(symbol::NO_BREAK_SPACE.into(), Mode::MathOrText) ==> vx_letter(ch)
//@subst Token::Letter(symbol::RIGHT_DOUBLE_QUOTATION_MARK.into(), Mode::MathOrText) ==> vx_letter(ch)
//@subst Token::Letter(symbol::LEFT_SINGLE_QUOTATION_MARK.into(), Mode::MathOrText) ==> vx_letter(ch)
//@subst Token::MathOrTextMode(&Token::Relation(symbol::LESS_THAN_SIGN), '<') ==> vx_math_or_text('<')
//@subst Token::MathOrTextMode(&Token::Relation(symbol::GREATER_THAN_SIGN), '>') ==> vx_math_or_text('>')
//@subst Token::MathOrTextMode(&Token::Close(symbol::EXCLAMATION_MARK), '!') ==> vx_math_or_text('!')
//@subst Token::MathOrTextMode(&Token::Open(symbol::LEFT_PARENTHESIS), '(') ==> vx_math_or_text('(')
//@subst Token::MathOrTextMode(&Token::Close(symbol::RIGHT_PARENTHESIS), ')') ==> vx_math_or_text(')')
//@subst Token::MathOrTextMode(&Token::BinaryOp(symbol::PLUS_SIGN), '+') ==> vx_math_or_text('+')
//@subst Token::MathOrTextMode(&Token::Punctuation(symbol::COMMA), ',') ==> vx_math_or_text(',')
//@subst Token::MathOrTextMode(&Token::BinaryOp(symbol::MINUS_SIGN), '-') ==> vx_math_or_text('-')
//@subst Token::MathOrTextMode(&Token::Ord(symbol::SOLIDUS), '/') ==> vx_math_or_text('/')
//@subst Token::MathOrTextMode(&Token::Punctuation(symbol::SEMICOLON), ';') ==> vx_math_or_text(';')
//@subst Token::MathOrTextMode(&Token::Relation(symbol::EQUALS_SIGN), '=') ==> vx_math_or_text('=')
//@subst Token::MathOrTextMode(&Token::Ord(symbol::VERTICAL_LINE), '|') ==> vx_math_or_text('|')
//@subst Token::MathOrTextMode(&Token::Prime(PrimeKind::Single), '’') ==> vx_math_or_text('’')
//@subst Token::MathOrTextMode(&const { Token::ForceBinaryOp(symbol::ASTERISK_OPERATOR.as_op()) }, '*',) ==> vx_math_or_text('*')
//@subst Token::MathOrTextMode(&const { Token::ForceRelation(symbol::COLON.as_op()) }, ':') ==> vx_math_or_text(':')
//@subst Token::Letter(c.into(), Mode::MathOrText) ==> vx_letter(c)
//@subst c if let Some(tok) = get_operator_from_unicode(c) => tok, c => vx_letter(c), ==> c => match get_operator_from_unicode(c) { Some(tok) => tok, None => vx_letter(c) },
//@include tokens.vx
/// the `kstring` crate: an immutable string
#[verifier::external_body]
pub struct KString(String);
impl View for KString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl KString {
    #[verifier::external_body]
    pub fn from_ref(s: &str) -> (r: KString) ensures r@ == s@ { unimplemented!() }
}
//@file crates/math-core/src/error.rs
//@extract enum DelimiterModifier
//@extract enum Place
//@extract enum LimitedUsabilityToken
//@extract enum LatexErrKind #[allow(inconsistent_fields)]
//@extract struct LatexError
impl Span {
//@file crates/math-core/src/token.rs
//@fn Span::with_length
//@opt noconst
//@ret r
//@spec
    requires self.start + length <= usize::MAX
    ensures r.start == self.start, r.end == self.start + length
//@endfn
}
#[verifier::external_body]
pub fn vx_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { core::mem::replace(d, s) }
#[verifier::external_body]
pub fn vx_len(s: &str) -> (r: usize) ensures r == sbytes(s@).len() { s.len() }

// ---- characters -----------------------------------------------------------------------------------
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn dec_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub fn vx_ws(c: char) -> (r: bool) ensures r == ws(c) { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub fn vx_alpha(c: char) -> (r: bool) ensures r == alpha(c) { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub fn vx_digit(c: char) -> (r: bool) ensures r == dec_digit(c) { '0' <= c && c <= '9' }
pub fn vx_some_alpha(c: Option<char>) -> (r: bool) ensures r == (c matches Some(x) && alpha(x)) { match c { Some(x) => vx_alpha(x), None => false } }
pub fn vx_some_alpha_star(c: Option<char>) -> (r: bool) ensures r == (c matches Some(x) && (alpha(x) || x == '*')) { match c { Some(x) => vx_alpha(x) || x == '*', None => false } }
pub open spec fn env_char(c: char) -> bool { alpha(c) || ws(c) || c == '*' }
pub fn vx_some_env(c: Option<char>) -> (r: bool) ensures r == (c matches Some(x) && env_char(x)) { match c { Some(x) => vx_alpha(x) || vx_ws(x) || x == '*', None => false } }
pub fn vx_is(c: Option<char>, d: char) -> (r: bool) ensures r == (c == Some(d)) { match c { Some(x) => x == d, None => false } }
pub fn vx_len_opt(c: Option<char>) -> (r: usize) ensures r == (match c { Some(c) => vstd::utf8::encode_scalar(c as u32).len(), None => 0 }) { match c { Some(c) => c.len_utf8(), None => 0 } }
pub fn vx_u8(x: u32) -> (r: Result<u8, ()>) ensures match r { Ok(y) => y == x, Err(_) => x > 255 } { if x <= 255 { Ok(x as u8) } else { Err(()) } }

/// two strings with the same characters are the same string
#[verifier::external_body]
pub proof fn axiom_str_same(a: &str, b: &str) ensures (a@ == b@) == (a == b) { }
// ---- positions ------------------------------------------------------------------------------------
/// the byte offset of the i-th character
pub open spec fn off(t: Seq<char>, i: int) -> int { sbytes(t.take(i)).len() as int }
pub proof fn lemma_off(t: Seq<char>, i: int)
    requires 0 <= i < t.len()
    ensures off(t, i + 1) == off(t, i) + vstd::utf8::encode_scalar(t[i] as u32).len(), 1 <= vstd::utf8::encode_scalar(t[i] as u32).len() <= 4,
        (t[i] as u32) <= 0x7f ==> off(t, i + 1) == off(t, i) + 1
{
    assert(t.take(i + 1) =~= t.take(i) + (seq![t[i]] + Seq::<char>::empty()));
    lemma_sbytes_concat(t.take(i), seq![t[i]] + Seq::<char>::empty());
    lemma_encode_cons(t[i], Seq::empty()); lemma_encode_nil();
    lemma_scalar_bytes(t[i]);
}
pub proof fn lemma_off_range(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len()
    ensures range_ok(t, off(t, i), off(t, j)), off(t, j) <= off(t, t.len() as int), off(t, i) <= off(t, j), off(t, t.len() as int) == sbytes(t).len(),
        sbytes(t).subrange(off(t, i), off(t, j)) == sbytes(t.subrange(i, j))
{
    lemma_bound_take(t, i); lemma_bound_take(t, j);
    assert(t.take(t.len() as int) =~= t);
    if i < j { lemma_take_mono(t, i, j); }
    if j < t.len() { lemma_take_mono(t, j, t.len() as int); }
    assert(t.take(j) =~= t.take(i) + t.subrange(i, j));
    lemma_sbytes_concat(t.take(i), t.subrange(i, j));
    assert(sbytes(t).subrange(off(t, i), off(t, j)) =~= sbytes(t.take(j)).subrange(off(t, i), off(t, j)));
    assert(sbytes(t.take(j)).subrange(off(t, i), off(t, j)) =~= sbytes(t.subrange(i, j)));
}
pub proof fn lemma_inj(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len()
    ensures forall|s: Seq<char>| #[trigger] sbytes(s) == sbytes(t).subrange(off(t, i), off(t, j)) ==> s == t.subrange(i, j),
        (off(t, i) == off(t, j)) == (i == j)
{
    lemma_off_range(t, i, j);
    if i < j { lemma_take_mono(t, i, j); }
    assert forall|s: Seq<char>| #[trigger] sbytes(s) == sbytes(t).subrange(off(t, i), off(t, j)) implies s == t.subrange(i, j) by { lemma_encode_inj(s, t.subrange(i, j)); }
}
/// std's iterator over the characters and their offsets
#[verifier::external_body]
pub struct VxCharIndices<'a> { x: core::str::CharIndices<'a> }
impl<'a> VxCharIndices<'a> {
    pub uninterp spec fn of(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures final(self).of() == old(self).of(),
            0 <= old(self).at() < old(self).of().len() ==> final(self).at() == old(self).at() + 1 && r == Some((off(old(self).of(), old(self).at()) as usize, old(self).of()[old(self).at()]))
                && off(old(self).of(), old(self).at()) <= usize::MAX,
            old(self).at() >= old(self).of().len() ==> final(self).at() == old(self).at() && r is None,
    { self.x.next() }
}
#[verifier::external_body]
pub fn vx_char_indices<'a>(s: &'a str) -> (r: VxCharIndices<'a>) ensures r.of() == s@, r.at() == 0 { VxCharIndices { x: s.char_indices() } }

// ---- what there is to read ------------------------------------------------------------------------
pub open spec fn ws_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && ws(t[i]) { ws_end(t, i + 1) } else { i } }
pub open spec fn alpha_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && alpha(t[i]) { alpha_end(t, i + 1) } else { i } }
pub open spec fn env_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && env_char(t[i]) { env_end(t, i + 1) } else { i } }
pub open spec fn line_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && t[i] != '\n' { line_end(t, i + 1) } else { i } }
pub open spec fn one(t: Seq<char>, i: int) -> int { if i < t.len() { i + 1 } else { i } }
pub open spec fn cmd_end(t: Seq<char>, i: int) -> int {
    let j = alpha_end(t, i);
    let k = if j < t.len() && t[j] == '*' { j + 1 } else { j };
    if k == i { one(t, i) } else { k }
}
/// after the comments at i, each up to the first character that is not blank on the next line
pub open spec fn comment_end(t: Seq<char>, i: int) -> int decreases t.len() - i {
    if 0 <= i < t.len() && t[i] == '%' {
        let j = ws_end(t, one(t, line_end(t, i + 1)));
        if i < j <= t.len() { comment_end(t, j) } else { i }
    } else { i }
}
pub proof fn lemma_ends(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= ws_end(t, i) <= t.len(), i <= alpha_end(t, i) <= t.len(), i <= env_end(t, i) <= t.len(), i <= line_end(t, i) <= t.len(),
        i <= cmd_end(t, i) <= t.len(), i < t.len() ==> i < cmd_end(t, i)
    decreases t.len() - i
{ if i < t.len() { lemma_ends(t, i + 1); } }
pub proof fn lemma_comment_end(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= comment_end(t, i) <= t.len(), comment_end(t, i) < t.len() ==> t[comment_end(t, i)] != '%'
    decreases t.len() - i
{
    if i < t.len() && t[i] == '%' {
        lemma_ends(t, i + 1); let k = one(t, line_end(t, i + 1)); lemma_ends(t, k);
        lemma_comment_end(t, ws_end(t, k));
    }
}
/// the name of an environment at i: what it is and where it ends
pub open spec fn env_name(t: Seq<char>, i: int) -> Result<(Seq<char>, int), (int, int)> {
    if i >= t.len() { Err((i, i)) }
    else if t[i] != '{' { if alpha(t[i]) || t[i] == '*' { Ok((seq![t[i]], i + 1)) } else { Err((i, i + 1)) } }
    else { let j = env_end(t, i + 1); if j < t.len() && t[j] == '}' { Ok((t.subrange(i + 1, j), j + 1)) } else { Err((j, one(t, j))) } }
}
/// the name is read up to its end; otherwise the error lies at the character that cannot be part of a name
pub open spec fn env_read(t: Seq<char>, n: Result<(Seq<char>, int), (int, int)>, r: Result<(&str, usize), (Option<char>, Range<usize>)>, p: int) -> bool {
    match n {
        Ok((name, j)) => r matches Ok((s, e)) && s@ == name && e == off(t, j) && p == j,
        Err((a, b)) => r matches Err((c, s)) && s.start == off(t, a) && s.end == off(t, b) && p == b && (c matches Some(c) ==> a < b && c == t[a]) && (c is None ==> a == t.len()),
    }
}
pub uninterp spec fn env_of(name: Seq<char>) -> Option<Env>;
impl Env {
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Option<Env>) ensures r == env_of(s@) { unimplemented!() }
}
pub uninterp spec fn operator_of(c: char) -> Option<Token>;
#[verifier::external_body]
pub fn get_operator_from_unicode(c: char) -> (r: Option<Token>) ensures r == operator_of(c) { unimplemented!() }

pub proof fn lemma_env_name(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures match env_name(t, i) { Ok((n, j)) => i < j <= t.len() && range_ok(t, off(t, i), off(t, j)), Err((a, b)) => i <= a <= b <= t.len() && b <= a + 1 && range_ok(t, off(t, a), off(t, b)) }
{
    if i < t.len() { lemma_ends(t, i + 1); lemma_off_range(t, i, i + 1); let j = env_end(t, i + 1); if j < t.len() { lemma_off_range(t, i, j + 1); lemma_off_range(t, j, j + 1); } }
    lemma_off_range(t, i, i); let l = t.len() as int; lemma_off_range(t, l, l);
}
#[verifier::external_body]
pub fn vx_letter(c: char) -> (r: Token) ensures r is Letter { unimplemented!() }
#[verifier::external_body]
pub fn vx_math_or_text(c: char) -> (r: Token) ensures r is MathOrTextMode, r->MathOrTextMode_1 == c { unimplemented!() }
pub open spec fn math_or_text(c: char) -> bool { c == '<' || c == '>' || c == '!' || c == '(' || c == ')' || c == '*' || c == '+' || c == ',' || c == '-' || c == '/' || c == ':' || c == ';' || c == '=' || c == '|' }
/// what is read for a character that stands for itself
pub open spec fn char_token(c: char, k: Token) -> bool {
    if alpha(c) { k is Letter } else if dec_digit(c) { k == Token::Digit(c) }
    else if c == '$' { k is Dollar } else if c == '&' { k is NewColumn } else if c == '[' { k is SquareBracketOpen } else if c == ']' { k is SquareBracketClose }
    else if c == '^' { k is Circumflex } else if c == '_' { k is Underscore } else if c == '{' { k is GroupBegin } else if c == '}' { k is GroupEnd } else if c == '~' { k is NonBreakingSpace }
    else if c == '\'' { k matches Token::MathOrTextMode(_, x) && x == '’' }
    else if math_or_text(c) { k matches Token::MathOrTextMode(_, x) && x == c }
    else { k is Letter || operator_of(c) == Some(k) }
}
/// the range of an error covers the characters from a to b
pub open spec fn at_chars(t: Seq<char>, e: Box<LatexError>, a: int, b: int) -> bool {
    e.0.start == off(t, a) && e.0.end == off(t, b) && 0 <= a <= b <= t.len() && range_ok(t, e.0.start as int, e.0.end as int)
}
pub open spec fn is_tok(r: Result<LexerOutput, Box<LatexError>>, t: Seq<char>, a: int, b: int) -> bool {
    r matches Ok(LexerOutput::Token(ts)) && ts.1.start == off(t, a) && ts.1.end == off(t, b) && 0 <= a <= b <= t.len() && range_ok(t, ts.1.start as int, ts.1.end as int)
}
/// after the command `name`: the marker of an environment with its name, or the command itself
pub open spec fn marker_read(t: Seq<char>, span: Span, name: Seq<char>, i: int, r: Result<LexerOutput, Box<LatexError>>, p: int) -> bool {
    if name != "begin"@ && name != "end"@ { r matches Ok(LexerOutput::CommandName(n, s)) && n@ == name && s == span && p == i }
    else {
        let g = ws_end(t, i);
        match env_name(t, g) {
            Err((a, b)) => p == b && (r matches Err(e) && at_chars(t, e, a, b)),
            Ok((n, j)) => p == j && match env_of(n) {
                None => r matches Err(e) && at_chars(t, e, g, j) && (e.1 matches LatexErrKind::UnknownEnvironment(k) && k@ == n),
                Some(env) => r matches Ok(LexerOutput::Token(ts)) && ts.0 == (if name == "begin"@ { Token::Begin(env) } else { Token::End(env) }) && ts.1.start == span.start && ts.1.end == off(t, j),
            },
        }
    }
}
/// one step of the lexer at character i, which leaves it at character p
pub open spec fn token_read(t: Seq<char>, i: int, r: Result<LexerOutput, Box<LatexError>>, p: int) -> bool {
    let a = comment_end(t, i); let l = t.len() as int;
    if i < l && ws(t[i]) { is_tok(r, t, i, i + 1) && ((r->Ok_0)->Token_0).0 is Whitespace && p == ws_end(t, i) }
    else if a >= l { is_tok(r, t, l, l) && ((r->Ok_0)->Token_0).0 is Eoi && p == l }
    else if t[a] == '\0' { r matches Err(e) && at_chars(t, e, a, a + 1) && p == a + 1 }
    else if t[a] == '#' {
        if a + 1 >= l { r matches Err(e) && at_chars(t, e, l, l) && p == l }
        else if '1' <= t[a + 1] && t[a + 1] <= '9' { is_tok(r, t, a, a + 2) && ((r->Ok_0)->Token_0).0 == Token::CustomCmdArgInput((t[a + 1] as u32 - '1' as u32) as u8) && p == a + 2 }
        else { r matches Err(e) && at_chars(t, e, a + 1, a + 2) }
    }
    else if t[a] == '\\' {
        let e = cmd_end(t, a + 1);
        marker_read(t, Span { start: off(t, a) as usize, end: off(t, e) as usize }, t.subrange(a + 1, e), ws_end(t, e), r, p)
    }
    else { is_tok(r, t, a, a + 1) && char_token(t[a], ((r->Ok_0)->Token_0).0) && p == a + 1 }
}
/// every step but the one at the end of the input moves on, so that the input comes to its end
pub proof fn lemma_progress(t: Seq<char>, i: int, r: Result<LexerOutput, Box<LatexError>>, p: int)
    requires 0 <= i <= t.len(), token_read(t, i, r, p), r is Ok
    ensures i < p <= t.len() || (p == t.len() && (r matches Ok(LexerOutput::Token(ts)) && ts.0 is Eoi))
{
    lemma_ends(t, i); if i < t.len() { lemma_ends(t, i + 1); } lemma_comment_end(t, i); let a = comment_end(t, i);
    if a < t.len() && t[a] == '\\' { lemma_ends(t, a + 1); let q = cmd_end(t, a + 1); lemma_ends(t, q); let w = ws_end(t, q); lemma_ends(t, w); lemma_env_name(t, ws_end(t, w)); }
}
//@file crates/math-core/src/lexer.rs
//@extract struct Lexer
//@extract type CharSpan
//@extract enum LexerOutput #[derive(Clone, Copy)]
//@extract enum EnvMarker #[derive(Clone, Copy)]
/// where the lexer stands
pub open spec fn pos(l: Lexer) -> int { if l.peek.1 is Some { l.input.at() - 1 } else { l.input_string@.len() as int } }
pub open spec fn ok(l: Lexer) -> bool {
    let t = l.input_string@;
    &&& l.input.of() == t && l.input_length == sbytes(t).len()
    &&& 0 <= pos(l) <= t.len() && l.peek.0 == off(t, pos(l))
    &&& match l.peek.1 { Some(c) => pos(l) < t.len() && c == t[pos(l)], None => l.input.at() == t.len() }
}
pub open spec fn same(a: Lexer, b: Lexer) -> bool { ok(b) && b.input_string == a.input_string }
impl<'source> Lexer<'source> {
//@fn Lexer::new
//@ret r
//@spec
    ensures ok(r), r.input_string@ == input@, pos(r) == 0
//@start
    proof { lemma_off_range(input@, 0, 0); assert(input@.take(0) =~= Seq::empty()); lemma_encode_nil(); }
//@endfn
//@fn Lexer::input_length
//@ret r
//@spec
    requires ok(*self)
    ensures r == sbytes(self.input_string@).len()
//@endfn
//@fn Lexer::read_char
//@ret r
//@spec
    requires old(self).input.of() == old(self).input_string@, old(self).input_length == sbytes(old(self).input_string@).len(), 0 <= old(self).input.at() <= old(self).input_string@.len()
    ensures r == old(self).peek, final(self).input_string == old(self).input_string, ok(*final(self)),
        pos(*final(self)) == old(self).input.at()
//@start
    proof { let t = self.input_string@; lemma_off_range(t, 0, t.len() as int); }
//@endfn
//@fn Lexer::skip_whitespace
//@ret r
//@spec
    requires ok(*old(self))
    ensures same(*old(self), *final(self)), ({ let t = old(self).input_string@; let i = pos(*old(self));
        pos(*final(self)) == ws_end(t, i) && match r {
            Some(s) => ws_end(t, i) > i && s.start == off(t, i) && s.end == off(t, i + 1),
            None => ws_end(t, i) == i,
        } })
//@start
    let ghost t = self.input_string@; let ghost i0 = pos(*self);
    proof { lemma_ends(t, i0); if i0 < t.len() { lemma_off(t, i0); lemma_off_range(t, i0, i0 + 1); } }
//@loop 0
    invariant ok(*self), self.input_string == old(self).input_string, t == self.input_string@, i0 == pos(*old(self)), 0 <= i0 <= pos(*self),
        ws_end(t, i0) == ws_end(t, pos(*self)), i0 < t.len() ==> off(t, i0 + 1) == off(t, i0) + vstd::utf8::encode_scalar(t[i0] as u32).len() && off(t, i0 + 1) <= usize::MAX,
        match span { Some(s) => i0 < pos(*self) && s.start == off(t, i0) && s.end == off(t, i0 + 1), None => pos(*self) == i0 }
    ensures ok(*self), self.input_string == old(self).input_string, pos(*self) == ws_end(t, i0),
        match span { Some(s) => i0 < pos(*self) && s.start == off(t, i0) && s.end == off(t, i0 + 1), None => pos(*self) == i0 }
    decreases t.len() - pos(*self)
//@endfn
//@fn Lexer::read_command
//@ret r
//@spec
    requires ok(*old(self))
    ensures same(*old(self), *final(self)), ({ let t = old(self).input_string@; let i = pos(*old(self));
        pos(*final(self)) == cmd_end(t, i) && r.0@ == t.subrange(i, cmd_end(t, i)) && r.1 == off(t, cmd_end(t, i)) })
//@start
    let ghost t = self.input_string@; let ghost i0 = pos(*self);
    proof { lemma_ends(t, i0); }
//@loop 0
    invariant ok(*self), self.input_string == old(self).input_string, t == self.input_string@, 0 <= i0 <= pos(*self), alpha_end(t, i0) == alpha_end(t, pos(*self))
    ensures ok(*self), self.input_string == old(self).input_string, pos(*self) == alpha_end(t, i0)
    decreases t.len() - pos(*self)
//@afterif 0
    proof { lemma_inj(t, i0, pos(*self)); }
//@afterlet end
    proof { lemma_off_range(t, i0, pos(*self)); lemma_inj(t, i0, pos(*self)); assert(pos(*self) == cmd_end(t, i0)); }
//@endfn
//@fn Lexer::read_env_name
//@ret r
//@spec
    requires ok(*old(self))
    ensures same(*old(self), *final(self)), ({ let t = old(self).input_string@; let i = pos(*old(self)); env_read(t, env_name(t, i), r, pos(*final(self))) })
//@start
    let ghost t = self.input_string@; let ghost i0 = pos(*self);
    proof { lemma_ends(t, i0); if i0 < t.len() { lemma_off(t, i0); lemma_off_range(t, i0, i0 + 1); lemma_inj(t, i0, i0 + 1); assert(t.subrange(i0, i0 + 1) =~= seq![t[i0]]); lemma_ends(t, i0 + 1);
        let j = env_end(t, i0 + 1); lemma_off_range(t, i0 + 1, j); lemma_inj(t, i0 + 1, j); if j < t.len() { lemma_off(t, j); lemma_off_range(t, j, j + 1); } } else { lemma_off_range(t, i0, i0); } }
//@loop 0
    invariant ok(*self), self.input_string == old(self).input_string, t == self.input_string@, 0 <= i0 < pos(*self), env_end(t, i0 + 1) == env_end(t, pos(*self))
    ensures ok(*self), self.input_string == old(self).input_string, pos(*self) == env_end(t, i0 + 1)
    decreases t.len() - pos(*self)
//@endfn
//@fn Lexer::parse_env_marker
//@ret r
//@spec
    requires ok(*old(self)), span.start <= sbytes(old(self).input_string@).len()
    ensures same(*old(self), *final(self)), marker_read(old(self).input_string@, span, cmd_string@, pos(*old(self)), r, pos(*final(self)))
//@start
    let ghost t = self.input_string@; let ghost i0 = pos(*self);
    proof { lemma_ends(t, i0); let g = ws_end(t, i0); lemma_env_name(t, g); axiom_str_same(cmd_string, "begin"); axiom_str_same(cmd_string, "end"); }
//@endfn
//@fn Lexer::next_token
//@ret r
//@spec
    requires ok(*old(self))
    ensures same(*old(self), *final(self)), token_read(old(self).input_string@, pos(*old(self)), r, pos(*final(self)))
//@start
    let ghost t = self.input_string@; let ghost i0 = pos(*self);
    proof { lemma_ends(t, i0); lemma_comment_end(t, i0); let a = comment_end(t, i0); lemma_off_range(t, i0, a); if a < t.len() { lemma_off(t, a); lemma_off_range(t, a, a + 1); lemma_ends(t, a + 1); lemma_ends(t, cmd_end(t, a + 1));
        if a + 1 < t.len() { lemma_off(t, a + 1); lemma_off_range(t, a + 1, a + 2); } else { lemma_off_range(t, a + 1, a + 1); } } }
//@loop 0
    invariant_except_break ok(*self), self.input_string == old(self).input_string, t == self.input_string@, i0 == pos(*old(self)), 0 <= i0 <= pos(*self), comment_end(t, i0) == comment_end(t, pos(*self))
    ensures ok(*self), self.input_string == old(self).input_string, ({ let a = comment_end(t, i0); pos(*self) == one(t, a) && 0 <= a <= t.len() && vx_broken == (off(t, a) as usize, if a < t.len() { Some(t[a]) } else { None::<char> }) && off(t, a) <= usize::MAX })
    decreases t.len() - pos(*self)
//@loopstart 0
    let ghost p0 = pos(*self);
    proof { lemma_ends(t, p0); if p0 < t.len() { lemma_ends(t, p0 + 1); lemma_ends(t, one(t, line_end(t, p0 + 1))); } else { assert(comment_end(t, p0) == p0); } }
//@loop 1
    invariant ok(*self), self.input_string == old(self).input_string, t == self.input_string@, 0 <= p0 < pos(*self), line_end(t, p0 + 1) == line_end(t, pos(*self))
    ensures ok(*self), self.input_string == old(self).input_string, pos(*self) == line_end(t, p0 + 1)
    decreases t.len() - pos(*self)
//@endfn
}
//@file crates/math-core/src/parser.rs
//@fn ordered_range
//@ret r
//@subst start.min(end) ==> vx_min(start, end)
//@spec
    ensures r.start <= r.end, r.end == end, start <= end ==> r.start == start
//@endfn
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
} // verus!
fn main() {}
