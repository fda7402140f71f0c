//@include prelude.vx
//@include tokens.vx
//@include penv.vx
// ---- specification -------------------------------------------------------------------------------
/// What one row of a numbered environment is given, and what that leaves behind: an own tag comes first, then suppression,
/// then the next number; in a multi-line equation nothing happens before the last row.
pub open spec fn silent(s: NumberedEnvState, is_last: bool) -> bool { s.mode is OnlyLast && !is_last }
pub open spec fn unnumbered(s: NumberedEnvState) -> bool { s.suppress_next_number || s.mode is NoneByDefault }
pub open spec fn row_tag(s: NumberedEnvState, count: int, is_last: bool) -> Option<(Seq<char>, bool)> {
    if silent(s, is_last) { None }
    else if let Some(t) = s.custom_next_tag { Some((t.text@, t.parenthesized)) }
    else if unnumbered(s) { None }
    else { Some((decimal((count + 1) as nat), true)) }
}
pub open spec fn row_counts(s: NumberedEnvState, is_last: bool) -> bool { !silent(s, is_last) && s.custom_next_tag is None && !unnumbered(s) }
pub open spec fn row_left(s: NumberedEnvState, is_last: bool) -> NumberedEnvState {
    if silent(s, is_last) { s }
    else if s.custom_next_tag is Some { NumberedEnvState { custom_next_tag: None, ..s } }
    else { NumberedEnvState { suppress_next_number: false, ..s } }
}
pub open spec fn tag_is(t: EquationTag, w: (Seq<char>, bool)) -> bool { t.text@ == w.0 && t.parenthesized == w.1 }
pub open spec fn tag_matches(t: Option<EquationTag>, w: Option<(Seq<char>, bool)>) -> bool { match (t, w) { (Some(t), Some(w)) => tag_is(t, w), (None, None) => true, _ => false } }
//@file crates/math-core/src/environments.rs
//@subst NonZeroU16::new(1) ==> vx_nz_new(1)
#[verifier::external_body]
pub fn vx_numbered_default() -> (r: NumberedEnvState<'static>)
    ensures r.mode is NoneByDefault, !r.suppress_next_number, r.custom_next_tag is None, r.label is None, r.num_rows is None
{ unimplemented!() }
pub open spec fn numbered_env(e: Env) -> bool { e is Align || e is AlignStar || e is Equation || e is EquationStar || e is Gather || e is GatherStar || e is MultLine }
pub open spec fn starred(e: Env) -> bool { e is AlignStar || e is EquationStar || e is GatherStar }
pub open spec fn fresh_numbering(e: Env, s: NumberedEnvState) -> bool {
    &&& s.mode == (if starred(e) { NumberingMode::NoneByDefault } else if e is MultLine { NumberingMode::OnlyLast } else { NumberingMode::AllByDefault })
    &&& !s.suppress_next_number && s.custom_next_tag is None && s.label is None
    &&& match s.num_rows { Some(n) => e is MultLine && nz(n) == 1, None => !(e is MultLine) }
}
impl Env {
//@fn Env::allows_columns
//@ret r
//@endfn
//@fn Env::allows_hlines
//@ret r
//@endfn
//@fn Env::get_numbered_env_state
//@ret r
//@subst Default::default() ==> vx_numbered_default()
//@spec
    ensures match r { Some(s) => numbered_env(self) && fresh_numbering(self, s), None => !numbered_env(self) }
//@endfn
//@fn Env::new_state
//@ret r
//@spec
    ensures match r.numbered { Some(s) => numbered_env(self) && fresh_numbering(self, s), None => !numbered_env(self) }
//@endfn
}
impl<'arena> NumberedEnvState<'arena> {
//@fn NumberedEnvState::next_equation_tag
//@ret r
//@subst |_| () ==> |_vx: FmtError| ()
//@subst write!(buffer, "{}", equation_counter) ==> write!(buffer, "{}", *equation_counter)
//@spec
    ensures match r {
        Ok(t) => tag_matches(t, row_tag(*old(self), *old(equation_counter) as int, is_last)) && *final(self) == row_left(*old(self), is_last)
            && *final(equation_counter) == *old(equation_counter) + (if row_counts(*old(self), is_last) { 1int } else { 0 }),
        Err(_) => row_counts(*old(self), is_last) && *old(equation_counter) == usize::MAX,
    }
//@endfn
}

// ---- the rows of an environment in the parser ------------------------------------------------------
pub open spec fn splits_rows(e: EnvState) -> bool { e.in_cell && e.meaningful_newlines }
impl EnvState<'_> {
//@fn EnvState::separates_cells
//@ret r
//@spec
    ensures r == (self.in_cell && match *token { Token::NewColumn => self.allow_columns, Token::NewLine => self.meaningful_newlines, _ => false })
//@endfn
}
/// the label map and the number of the stores
pub open spec fn nums(p: Parser) -> (int, Map<Seq<char>, Seq<char>>) { (p.tokens.stores.global_state.equation_count as int, p.tokens.stores.global_state.label_map@) }
pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// the row separator carries exactly what the row was given
pub open spec fn info_is(i: Option<&RowLabelInfo>, tag: Option<(Seq<char>, bool)>, label: Option<&str>) -> bool {
    match (i, tag) { (Some(i), Some(t)) => tag_is(i.tag, t) && opt_str(i.link_target) == opt_str(label), (None, None) => true, _ => false }
}
/// a row with both a tag and a label makes the label stand for the tag
pub open spec fn labels_after(m: Map<Seq<char>, Seq<char>>, tag: Option<(Seq<char>, bool)>, label: Option<&str>) -> Map<Seq<char>, Seq<char>> {
    match (tag, label) { (Some(t), Some(l)) => m.insert(l@, t.0), _ => m }
}
pub open spec fn count_after(c: int, s: NumberedEnvState, is_last: bool) -> int { c + (if row_counts(s, is_last) { 1int } else { 0 }) }
/// the state left by a row that is not the last
pub open spec fn next_row(o: NumberedEnvState, f: NumberedEnvState) -> bool {
    let w = row_left(o, false);
    f.mode == w.mode && f.suppress_next_number == w.suppress_next_number && f.custom_next_tag == w.custom_next_tag && f.label is None
    && match (o.num_rows, f.num_rows) { (Some(a), Some(b)) => nz(b) == nz(a) + 1, (None, None) => true, _ => false }
}
/// what no command in a cell changes (shown for each command that touches the numbering)
pub open spec fn same_kind(o: Option<NumberedEnvState>, f: Option<NumberedEnvState>) -> bool {
    match (o, f) { (Some(a), Some(b)) => a.mode == b.mode && (a.num_rows is Some == b.num_rows is Some), (None, None) => true, _ => false }
}
pub uninterp spec fn cells_end(s: EnvState, a: (int, Map<Seq<char>, Seq<char>>), e: EnvState, b: (int, Map<Seq<char>, Seq<char>>)) -> bool;
/// the node made of an environment whose last row got `i` and which counted `k` rows
pub open spec fn made(e: Env, n: Node, i: Option<&RowLabelInfo>, k: Option<NonZeroU16>) -> bool {
    if e is MultLine { n matches Node::MultLine { num_rows, last_row_info, .. } && last_row_info == i && Some(num_rows) == k }
    else if numbered_env(e) { n matches Node::EquationArray { last_row_info, .. } && last_row_info == i }
    else { !(n is MultLine) && !(n is EquationArray) }
}
/// the arrays have column specifications
pub open spec fn with_columns(e: Env) -> bool { e is Array || e is DArray || e is Subarray }
#[verifier::external_body]
pub fn vx_unwrap_unchecked<T>(o: Option<T>) -> (r: T) requires o is Some ensures r == o->0 { unsafe { o.unwrap_unchecked() } }
//@file crates/math-core/src/character_class.rs
//@extract struct StretchableOp #[derive(Clone, Copy)]
//@extract enum Stretchy #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum DelimiterSpacing #[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[verifier::external_body]
pub fn vx_delimiter() -> StretchableOp { unimplemented!() }
#[verifier::external_body]
pub fn fenced<'arena>(arena: &'arena Arena, content: Vec<&'arena Node<'arena>>, open: Option<StretchableOp>, close: Option<StretchableOp>, style: Option<Style>) -> (r: Node<'arena>)
    ensures !(r is MultLine), !(r is EquationArray)
{ unimplemented!() }
//@file crates/math-core/src/environments.rs
//@subst OPEN_BRACE ==> vx_delimiter()
//@subst CLOSE_BRACE ==> vx_delimiter()
//@subst OPEN_PAREN ==> vx_delimiter()
//@subst CLOSE_PAREN ==> vx_delimiter()
//@subst OPEN_BRACKET ==> vx_delimiter()
//@subst CLOSE_BRACKET ==> vx_delimiter()
//@subst const LINE: StretchableOp = StretchableOp::from_ord(symbol::VERTICAL_LINE).unwrap(); ==> let LINE = vx_delimiter();
//@subst const DOUBLE_LINE: StretchableOp = StretchableOp::from_ord(symbol::DOUBLE_VERTICAL_LINE).unwrap(); ==> let DOUBLE_LINE = vx_delimiter();
//@subst unsafe { array_spec.unwrap_unchecked() } ==> vx_unwrap_unchecked(array_spec)
use Env::*;
impl Env {
//@fn Env::style
//@ret r
//@endfn
//@fn Env::construct_node
//@ret r
//@spec
    requires with_columns(self) ==> array_spec is Some, self is MultLine ==> num_rows is Some
    ensures made(self, r, last_row_info, num_rows)
//@endfn
}
#[verifier::external_body]
pub fn vx_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { core::mem::replace(d, s) }
#[verifier::external_body]
pub fn parse_column_specification<'arena>(s: &str, arena: &'arena Arena) -> (r: Option<ArraySpec<'arena>>) { unimplemented!() }
pub fn vx_array_spec<'arena>(arena: &'arena Arena, spec: Option<ArraySpec<'arena>>, border_top: Option<LineType>) -> (r: Option<&'arena ArraySpec<'arena>>) ensures r is Some == spec is Some
{ match spec { Some(mut spec) => { spec.border_top = border_top; Some(arena.alloc_array_spec(spec)) } None => None } }
//@file crates/math-core/src/parser.rs
//@extract enum SequenceEnd
impl<'state, 'arena> Parser<'state, 'arena> {
    #[verifier::external_body]
    pub fn parse_sequence_if_in_sequence(&mut self, parse_as: ParseAs, span: Span, sequence_end: SequenceEnd, prev_class: Class, keep_end_token: bool) -> (r: ParseResult<Vec<&'arena Node<'arena>>>)
        ensures r is Ok ==> cells_end(old(self).state.env, nums(*old(self)), final(self).state.env, nums(*final(self))) && same_kind(old(self).state.env.numbered, final(self).state.env.numbered)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_token(&mut self) -> (r: ParseResult<TokSpan>) ensures read_only(*old(self), *final(self)) { unimplemented!() }
}
//@file crates/math-core/src/parser.rs
//@subst row_counter.checked_add(1) ==> vx_nz_add(row_counter, 1)
//@subst Node::EMPTY_ROW ==> vx_empty_row()
#[verifier::external_body]
pub fn vx_empty_row() -> (r: Node<'static>) ensures r matches Node::Row { nodes, .. } && nodes@.len() == 0 { unimplemented!() }
impl<'state, 'arena> Parser<'state, 'arena> {
//@fn value:Parser::parse_one_token:NewLine as vx_new_line
//@sig fn vx_new_line(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is NewLine
    ensures *final(class) is Open,
        !(parse_as is Sequence) || !splits_rows(old(self).state.env) ==> *final(self) == *old(self) && (r matches Ok(Ok(Node::Row { .. }))),
        parse_as is Sequence && splits_rows(old(self).state.env) ==> (match r {
            Ok(Ok(n)) => n is RowSeparator && match (old(self).state.env.numbered, final(self).state.env.numbered) {
                (Some(s), Some(f)) => next_row(s, f) && info_is(n->label_info, row_tag(s, nums(*old(self)).0, false), s.label)
                    && nums(*final(self)) == (count_after(nums(*old(self)).0, s, false), labels_after(nums(*old(self)).1, row_tag(s, nums(*old(self)).0, false), s.label)),
                (None, None) => n->label_info is None && nums(*final(self)) == nums(*old(self)),
                _ => false,
            },
            Ok(Err(_)) => old(self).state.env.numbered matches Some(s) && (row_counts(s, false) && nums(*old(self)).0 == usize::MAX || (s.num_rows matches Some(n) && nz(n) >= 65535)),
            Err(_) => true,
        })
//@endfn
// The cells of an environment: whatever they are, `cells_end` relates the environment's state and the stores before and after.
//@subst mem::replace ==> vx_replace
//@fn value:Parser::parse_one_token:Begin as vx_begin
//@sig fn vx_begin(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@subst spec.map(|mut spec| { spec.border_top = border_top; self.arena.alloc_array_spec(spec) }) ==> vx_array_spec(self.arena, spec, border_top)
//@spec
    requires vx_tok is Begin
    ensures r matches Ok(Ok(n)) ==> {
        &&& *final(class) is Close
        // a nested environment leaves the outer one's numbering, tags and labels alone
        &&& final(self).state.env == old(self).state.env
        &&& exists|s: EnvState, e: EnvState, a: (int, Map<Seq<char>, Seq<char>>), b: (int, Map<Seq<char>, Seq<char>>), i: Option<&RowLabelInfo>, k: Option<NonZeroU16>|
            (match s.numbered { Some(s) => numbered_env(vx_tok->Begin_0) && fresh_numbering(vx_tok->Begin_0, s), None => !numbered_env(vx_tok->Begin_0) })
            && same_kind(s.numbered, e.numbered) && a == nums(*old(self)) && #[trigger] cells_end(s, a, e, b) && #[trigger] made(vx_tok->Begin_0, n, i, k)
            && (match e.numbered {
                None => i is None && k is None && nums(*final(self)) == b,
                Some(s) => info_is(i, row_tag(s, b.0, true), s.label) && k == s.num_rows
                    && nums(*final(self)) == (count_after(b.0, s, true), labels_after(b.1, row_tag(s, b.0, true), s.label)),
            })
    }
//@endfn
/// what the end of an environment gives its last row (the environment's state is already taken out of the parser)
//@fn let:Parser::parse_one_token:last_row_info as vx_last_row
//@sig fn vx_last_row(&mut self, numbered_state: Option<NumberedEnvState<'arena>>, span: Span) -> (r: Result<VxLet<(Option<&'arena RowLabelInfo<'arena>>, Option<NonZeroU16>), Result<Node<'arena>, LatexError>>, Box<LatexError>>)
//@spec
    ensures final(self).state == old(self).state,
        match numbered_state {
            None => r matches Ok(VxLet::Value((None, None))) && nums(*final(self)) == nums(*old(self)),
            Some(s) => match r {
                Ok(VxLet::Value((i, n))) => info_is(i, row_tag(s, nums(*old(self)).0, true), s.label) && n == s.num_rows
                    && nums(*final(self)) == (count_after(nums(*old(self)).0, s, true), labels_after(nums(*old(self)).1, row_tag(s, nums(*old(self)).0, true), s.label)),
                Ok(VxLet::Break(b)) => b is Err && row_counts(s, true) && nums(*old(self)).0 == usize::MAX,
                Err(_) => false,
            },
        }
//@endfn
//@fn value:Parser::handle_tokens_without_output:NoNumber as vx_no_number
//@sig fn vx_no_number(&mut self, vx_tok: Token, span: Range<usize>) -> (r: Result<Result<(), LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is NoNumber
    ensures r matches Ok(Ok(_)), nums(*final(self)) == nums(*old(self)),
        final(self).state.env.numbered == (match old(self).state.env.numbered { Some(s) => Some(NumberedEnvState { suppress_next_number: true, ..s }), None => None })
//@endfn
//@fn value:Parser::handle_tokens_without_output:Tag as vx_tag
//@sig fn vx_tag(&mut self, vx_tok: Token, span: Range<usize>) -> (r: Result<Result<(), LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Tag
    ensures nums(*final(self)) == nums(*old(self)),
        r matches Ok(Ok(_)) ==> (match (old(self).state.env.numbered, final(self).state.env.numbered) {
            (Some(s), Some(f)) => (f.custom_next_tag matches Some(t) && tag_is(t, (string_arg(old(self).tokens), vx_tok->Tag_parenthesized))) && f == (NumberedEnvState { custom_next_tag: f.custom_next_tag, ..s }),
            _ => false,
        })
//@endfn
//@fn value:Parser::handle_tokens_without_output:Label as vx_label
//@sig fn vx_label(&mut self, vx_tok: Token, span: Range<usize>) -> (r: Result<Result<(), LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is Label
    ensures nums(*final(self)) == nums(*old(self)),
        r matches Ok(Ok(_)) ==> (match (old(self).state.env.numbered, final(self).state.env.numbered) {
            (Some(s), Some(f)) => s.label is None && opt_str(f.label) == Some(string_arg(old(self).tokens)) && f == (NumberedEnvState { label: f.label, ..s }),
            _ => false,
        })
//@endfn
//@fn value:Parser::parse_one_token:EqRef as vx_eq_ref
//@sig fn vx_eq_ref(&mut self, vx_tok: Token, span: Span, parse_as: ParseAs, class: &mut Class) -> (r: Result<Result<Node<'arena>, LatexError>, Box<LatexError>>)
//@spec
    requires vx_tok is EqRef
    ensures nums(*final(self)) == nums(*old(self)), final(self).state == old(self).state, r matches Ok(x) ==> (x matches Ok(Node::EqRef(l)) && l@ == string_arg(old(self).tokens))
//@endfn
}

// ---- whole environments ---------------------------------------------------------------------------
/// What the author wrote in one row.
pub struct Row<'a> { pub tag: Option<EquationTag<'a>>, pub notag: bool }
/// the state at the end of a row: `\tag` and `\notag` (contracts of vx_tag and vx_no_number)
pub open spec fn written<'a>(s: NumberedEnvState<'a>, r: Row<'a>) -> NumberedEnvState<'a> {
    NumberedEnvState { suppress_next_number: s.suppress_next_number || r.notag, custom_next_tag: if r.tag is Some { r.tag } else { s.custom_next_tag }, ..s }
}
/// state and count before row `k` of an environment whose first row meets state `s` and count `c`
#[verifier::opaque]
pub open spec fn before<'a>(s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: nat) -> (NumberedEnvState<'a>, int) decreases k {
    if k == 0 { (s, c) } else {
        let (t, d) = before(s, c, rows, (k - 1) as nat);
        let w = written(t, rows[k - 1]);
        (row_left(w, k == rows.len()), count_after(d, w, k == rows.len()))
    }
}
/// the tag of row `k` (counted from 0)
pub open spec fn tag_of<'a>(s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: int) -> Option<(Seq<char>, bool)> {
    let (t, d) = before(s, c, rows, k as nat);
    row_tag(written(t, rows[k]), d, k + 1 == rows.len())
}
/// A row is numbered unless it says otherwise.
pub open spec fn plain(r: Row) -> bool { r.tag is None && !r.notag }
pub open spec fn tidy(r: Row) -> bool { !(r.tag is Some && r.notag) }
#[verifier::opaque]
pub open spec fn plain_rows(rows: Seq<Row>, k: nat) -> nat decreases k { if k == 0 { 0 } else { plain_rows(rows, (k - 1) as nat) + (if plain(rows[k - 1]) { 1nat } else { 0 }) } }
pub open spec fn clean(s: NumberedEnvState) -> bool { !s.suppress_next_number && s.custom_next_tag is None }
/// Numbering is consecutive: whatever the rows are (none with both a tag and a suppression), row k of a numbered environment
/// meets a clean state and a count that has gone up by one for each plain row before it.
pub proof fn lemma_consecutive<'a>(s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: nat)
    requires s.mode is AllByDefault, clean(s), k <= rows.len(), forall|i: int| 0 <= i < rows.len() ==> tidy(#[trigger] rows[i])
    ensures clean(before(s, c, rows, k).0), before(s, c, rows, k).0.mode is AllByDefault, before(s, c, rows, k).1 == c + plain_rows(rows, k)
    decreases k
{
    reveal_with_fuel(before, 2); reveal_with_fuel(plain_rows, 2);
    if k > 0 { lemma_consecutive(s, c, rows, (k - 1) as nat); assert(tidy(rows[k - 1])); }
}
/// Each plain row shows the next number, each tagged row its tag, each suppressed row nothing.
pub proof fn lemma_row_tags<'a>(e: Env, s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: int)
    requires fresh_numbering(e, s), numbered_env(e), !starred(e), !(e is MultLine), 0 <= k < rows.len(), c >= 0, forall|i: int| 0 <= i < rows.len() ==> tidy(#[trigger] rows[i])
    ensures tag_of(s, c, rows, k) == (if rows[k].tag is Some { Some(((rows[k].tag->0).text@, (rows[k].tag->0).parenthesized)) } else if rows[k].notag { None }
        else { Some((decimal((c + plain_rows(rows, k as nat) + 1) as nat), true)) })
{
    lemma_consecutive(s, c, rows, k as nat);
}
/// two plain rows of one environment with no plain row between them show numbers that differ by one
pub proof fn lemma_neighbours(rows: Seq<Row>, i: nat, k: nat)
    requires i < k < rows.len(), plain(rows[i as int]), forall|j: int| i < j < k ==> !plain(#[trigger] rows[j])
    ensures plain_rows(rows, k) == plain_rows(rows, i) + 1
    decreases k
{
    reveal_with_fuel(plain_rows, 2);
    if k > i + 1 { assert(!plain(rows[k - 1])); lemma_neighbours(rows, i, (k - 1) as nat); }
}
/// An environment that numbers nothing leaves the count alone and shows own tags only, whatever its rows are.
pub proof fn lemma_starred<'a>(e: Env, s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: nat)
    requires fresh_numbering(e, s), starred(e), numbered_env(e), k <= rows.len()
    ensures before(s, c, rows, k).1 == c, before(s, c, rows, k).0.mode is NoneByDefault, before(s, c, rows, k).0.custom_next_tag is None,
        k < rows.len() ==> tag_of(s, c, rows, k as int) == (match rows[k as int].tag { Some(t) => Some((t.text@, t.parenthesized)), None => None })
    decreases k
{
    reveal_with_fuel(before, 2);
    if k > 0 { lemma_starred(e, s, c, rows, (k - 1) as nat); }
}
/// In a multi-line equation no row but the last shows or takes a number.
pub proof fn lemma_only_last<'a>(s: NumberedEnvState<'a>, c: int, rows: Seq<Row<'a>>, k: nat)
    requires s.mode is OnlyLast, k < rows.len()
    ensures before(s, c, rows, k).1 == c, before(s, c, rows, k).0.mode is OnlyLast, k + 1 < rows.len() ==> tag_of(s, c, rows, k as int) is None
    decreases k
{
    reveal_with_fuel(before, 2);
    if k > 0 { lemma_only_last(s, c, rows, (k - 1) as nat); }
}
} // verus!
fn main() {}
