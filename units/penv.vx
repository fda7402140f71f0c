// The parser and its surroundings: the real types, and stand-ins for what the functions under contract only call
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst FxHashMap<KString, CmdDef> ==> VxDefs
//@subst FxHashMap<KString, usize> ==> VxDefs
use std::collections::VecDeque;
use core::num::NonZeroU16;
/// the `kstring` crate: an immutable string
#[verifier::external_body]
pub struct KString(String);
impl View for KString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl KString {
    #[verifier::external_body]
    pub fn from_ref(s: &str) -> (r: KString) ensures r@ == s@ { unimplemented!() }
}
/// the label map of the global state: std's HashMap, as a mathematical map
#[verifier::external_body]
pub struct VxLabels { x: () }
impl View for VxLabels { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxLabels {
    #[verifier::external_body]
    pub fn insert(&mut self, label: KString, tag: KString) -> (r: Option<KString>) ensures final(self)@ == old(self)@.insert(label@, tag@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDefs { x: () }
// numbers that are not zero
pub uninterp spec fn nz(n: NonZeroU16) -> int;
#[verifier::external_body]
pub fn vx_nz_new(n: u16) -> (r: Option<NonZeroU16>) ensures match r { Some(x) => nz(x) == n && n > 0, None => n == 0 } { NonZeroU16::new(n) }
#[verifier::external_body]
pub fn vx_nz_add(x: &NonZeroU16, n: u16) -> (r: Option<NonZeroU16>) ensures match r { Some(y) => nz(y) == nz(*x) + n, None => nz(*x) + n > 65535 } { x.checked_add(n) }
/// how the value of a `let` is reached, or the block around it left
pub enum VxLet<T, N> { Value(T), Break(N) }
//@file crates/mathml-renderer/src/length.rs
//@extract struct LengthSet #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/attribute.rs
//@extract enum LetterAttr #[derive(Clone, Copy)]
//@extract enum MathSpacing #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct RowAttrs #[derive(Clone, Copy)]
//@file crates/mathml-renderer/src/table.rs
//@extract enum ColumnAlignment #[derive(Clone, Copy)]
//@extract enum ColumnSpecEntry #[derive(Clone, Copy)]
//@extract type ColumnSpec
//@extract struct ArraySpec
//@extract enum Alignment #[derive(Clone, Copy)]
//@extract struct EquationTag #[derive(Clone, Copy)]
//@extract struct RowLabelInfo
//@file crates/mathml-renderer/src/ast.rs
//@extract struct AHref #[derive(Clone, Copy)]
//@extract struct MultiscriptPair #[derive(Clone, Copy)]
//@extract enum Node #[allow(inconsistent_fields)]
/// the arena gives back what it is given
#[verifier::external_body]
pub struct Arena { x: () }
impl Arena {
    #[verifier::external_body]
    pub fn push<'arena>(&'arena self, node: Node<'arena>) -> (r: &'arena Node<'arena>) ensures *r == node { unimplemented!() }
    #[verifier::external_body]
    pub fn push_slice<'arena>(&'arena self, nodes: &[&'arena Node<'arena>]) -> (r: &'arena [&'arena Node<'arena>]) ensures r@ == nodes@ { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_str(&self, src: &str) -> (r: &str) ensures r@ == src@ { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_row_label_info<'arena>(&'arena self, info: RowLabelInfo<'arena>) -> (r: &'arena RowLabelInfo<'arena>) ensures *r == info { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_array_spec<'arena>(&'arena self, spec: ArraySpec<'arena>) -> (r: &'arena ArraySpec<'arena>) ensures *r == spec { unimplemented!() }
}
//@file crates/math-core/src/error.rs
//@extract enum DelimiterModifier
//@extract enum Place
//@extract enum LimitedUsabilityToken
//@extract enum LatexErrKind #[allow(inconsistent_fields)]
//@extract struct LatexError
//@file crates/math-core/src/string_pool.rs
//@extract struct StringPool
//@file crates/math-core/src/custom_cmds.rs
//@extract enum RecordedToken
//@extract struct CmdDef
//@extract struct CustomCmds
//@file crates/math-core/src/global_state.rs
//@extract struct GlobalState
//@file crates/math-core/src/lib.rs
//@extract enum UnicodeSubstitution #[derive(Clone, Copy)]
//@extract struct MaxExpansions #[derive(Clone, Copy)]
//@extract struct ParserConfig
//@file crates/math-core/src/lexer.rs
//@extract enum LexerOutput #[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Lexer<'a> { x: &'a str }
//@file crates/math-core/src/token_queue.rs
//@extract struct QueuedTok #[derive(Clone, Copy)]
//@extract struct Stores
//@extract struct TokenQueue
//@extract struct CmdArgs
//@file crates/math-core/src/environments.rs
//@extract enum NumberingMode #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct NumberedEnvState
//@extract struct EnvState
#[verifier::external_body]
pub struct Buffer { x: u8 }
//@file crates/math-core/src/parser.rs
//@extract enum ParseAs #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Parsed
//@extract type ParseResult
//@extract struct ParserState
//@extract struct Parser
impl<'a> QueuedTok<'a> {
    pub fn token(&self) -> (r: &Token) ensures *r == self.0.0 { &self.0.0 }
    pub fn span(&self) -> (r: Span) ensures r == self.0.1 { self.0.1 }
}
pub uninterp spec fn peeked<'s, 'a>(tq: TokenQueue<'s, 'a>) -> QueuedTok<'a>;
/// the queue after one more token (one function of the queue)
pub uninterp spec fn advanced<'s, 'a>(tq: TokenQueue<'s, 'a>) -> TokenQueue<'s, 'a>;
#[verifier::opaque]
pub open spec fn nth<'s, 'a>(tq: TokenQueue<'s, 'a>, n: nat) -> TokenQueue<'s, 'a> decreases n { if n == 0 { tq } else { advanced(nth(tq, (n - 1) as nat)) } }
impl<'state, 'arena> TokenQueue<'state, 'arena> {
    #[verifier::external_body]
    pub fn peek(&self) -> (r: &QueuedTok<'arena>) ensures *r == peeked(*self) { unimplemented!() }
    /// taking tokens leaves the stores alone (proved in c10_macros)
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: ParseResult<TokSpan>) ensures final(self).stores == old(self).stores, *final(self) == advanced(*old(self)), r matches Ok(t) ==> t.0 == math(peeked(*old(self)).0.0) { unimplemented!() }
}
/// the text of the argument that comes next
pub uninterp spec fn string_arg<'s, 'a>(tq: TokenQueue<'s, 'a>) -> Seq<char>;
/// reading an argument of a command touches the queue and the buffer only
pub open spec fn read_only(o: Parser, f: Parser) -> bool { f.state == o.state && f.tokens.stores == o.tokens.stores && f.arena == o.arena }
impl<'state, 'arena> Parser<'state, 'arena> {
    #[verifier::external_body]
    pub fn parse_string_literal(&mut self) -> (r: Result<(&'arena str, Range<usize>), Box<LatexError>>) ensures read_only(*old(self), *final(self)), r matches Ok(s) ==> s.0@ == string_arg(old(self).tokens) { unimplemented!() }
}
