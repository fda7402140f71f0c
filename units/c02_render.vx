//@subst core::fmt::Result ==> Result<(), FmtError>
//@subst core::fmt::Error ==> FmtError
//@include prelude.vx
//@include reader.vx
//@include superchar.vx
//@include fmt.vx
//@include hex.vx
//@include content.vx
use core::num::NonZeroU16;
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst Cow<'static, str> ==> String
//@subst <&str>::from ==> vx_name
//@subst <&'static str>::from ==> vx_name
//@subst cfg!(debug_assertions) ==> true
//@subst num_rows.get() ==> vx_nz_get(&num_rows)

pub broadcast proof fn lemma_nl(k: Stk, n: nat, ind: Indentation)
    ensures #[trigger] run(St::C(k), nl(n, ind)) == St::C(k)
{
    lemma_units_blank(n, ind);
    assert(blank(nl(n, ind)));
    lemma_blank(k, nl(n, ind));
}
proof fn lemma_units_blank(n: nat, ind: Indentation)
    ensures blank(units(ind, n))
    decreases n
{ reveal_with_fuel(units, 2); if n > 0 { lemma_units_blank((n - 1) as nat, ind); } }
pub broadcast proof fn lemma_escape5_text(k: Stk, s: Seq<char>)
    requires texty(k)
    ensures #[trigger] run(St::C(k), escape5(s)) == St::C(k)
    decreases s.len()
{
    broadcast use {group_lits, lemma_run_cat, lemma_run_nil};
    reveal_with_fuel(escape5, 2);
    if s.len() > 0 { lemma_escape5_text(k, s.drop_last()); lemma_one(k, s.last()); }
}
pub broadcast proof fn lemma_escape5_value(k: Stk, t: int, a: Set<int>, s: Seq<char>)
    ensures #[trigger] run(St::AVal(k, t, a), escape5(s)) == St::AVal(k, t, a)
    decreases s.len()
{
    broadcast use {group_lits, lemma_run_cat, lemma_run_nil};
    reveal_with_fuel(escape5, 2);
    if s.len() > 0 {
        lemma_escape5_value(k, t, a, s.drop_last());
        let c = s.last();
        if c != '<' && c != '>' && c != '&' && c != '"' { lemma_plain_value(k, t, a, seq![c]); }
    }
}
proof fn lemma_one(k: Stk, c: char)
    requires texty(k)
    ensures run(St::C(k), esc5(c)) == St::C(k), run(St::C(k), esc3(c)) == St::C(k)
{
    broadcast use {group_lits, lemma_run_nil};
    if c != '<' && c != '>' && c != '&' && c != '"' { lemma_plain_text(k, seq![c]); }
    if c == '"' { assert(seq![c] =~= Seq::<char>::empty().push(c)); lemma_run_push(St::C(k), seq![], c); }
}
pub broadcast proof fn lemma_escape3_text(k: Stk, s: Seq<char>)
    requires texty(k)
    ensures #[trigger] run(St::C(k), escape3(s)) == St::C(k)
    decreases s.len()
{
    broadcast use {lemma_run_cat, lemma_run_nil};
    reveal_with_fuel(escape3, 2);
    if s.len() > 0 { lemma_escape3_text(k, s.skip(1)); lemma_one(k, s[0]); }
}
pub broadcast group group_run { group_lits, lemma_run_nil, lemma_plain_value, lemma_plain_text, lemma_after_nl, lemma_after_hex, lemma_escape5_text, lemma_escape5_value, lemma_escape3_text }
pub broadcast proof fn lemma_after_nl(st: St, a: Seq<char>, n: nat, ind: Indentation)
    ensures run(st, a) is C ==> #[trigger] run(st, a + nl(n, ind)) == run(st, a)
{ lemma_run_cat(st, a, nl(n, ind)); if run(st, a) is C { lemma_nl(run(st, a)->C_0, n, ind); } }
pub broadcast proof fn lemma_after_hex(st: St, a: Seq<char>, b: u8)
    ensures run(st, a) is AVal ==> #[trigger] run(st, a + hex2(b)) == run(st, a)
{ lemma_run_cat(st, a, hex2(b)); if let St::AVal(k, t, x) = run(st, a) { lemma_plain_value(k, t, x, hex2(b)); } }
/// the pieces of a `write!`, and what they do to the reader
pub trait VxAt {
    spec fn vx_at(&self) -> St;
    fn at_lit(&mut self, s: &str) ensures final(self).vx_at() == run(old(self).vx_at(), s@);
    fn at_disp<T: VxDisp>(&mut self, x: &T) ensures final(self).vx_at() == run(old(self).vx_at(), x.vx_text());
}
impl VxAt for String {
    open spec fn vx_at(&self) -> St { at(*self) }
    fn at_lit(&mut self, s: &str) { proof { lemma_run_cat(St::C(Stk::Nil), self@, s@); } self.push_str(s); }
    fn at_disp<T: VxDisp>(&mut self, x: &T) { proof { lemma_run_cat(St::C(Stk::Nil), self@, x.vx_text()); } self.vx_disp(x); }
}
//@writer at_
//@subst s.push_str ==> s.at_lit
//@subst output.push_str ==> output.at_lit
/// the names strum derives
pub trait VxName: Sized {
    spec fn name(self) -> Seq<char>;
    fn vx_str(self) -> (r: &'static str) ensures r@ == self.name();
}
pub fn vx_name<T: VxName>(x: T) -> (r: &'static str) ensures r@ == x.name() { x.vx_str() }

// ---- lengths ----
//@file crates/mathml-renderer/src/length.rs
//@extract enum LengthUnit #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct LengthValue #[derive(Clone, Copy)]
//@extract struct Length #[derive(Clone, Copy)]
//@strum-str LengthUnit vx_unit_name lit
impl VxName for LengthUnit { open spec fn name(self) -> Seq<char> { vx_unit_name_spec(self) } fn vx_str(self) -> &'static str { vx_unit_name(self) } }
pub uninterp spec fn nonzero(x: f32) -> bool;
pub uninterp spec fn finite(x: f32) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_zero() ensures !#[trigger] nonzero(0.0f32), finite(0.0f32) { }
#[verifier::external_body]
pub fn vx_nonzero(x: f32) -> (r: bool) ensures r == nonzero(x) { x != 0.0 }
#[verifier::external_body]
pub fn vx_finite(x: f32) -> (r: bool) ensures r == finite(x) { x.is_finite() }
#[verifier::external_body]
pub fn vx_negative(x: f32) -> (r: bool) { x < 0.0 }
/// what the `dtoa` crate makes of a number: digits, a sign, a point, an exponent, "NaN" or "inf"
pub struct VxDtoa;
impl VxDtoa {
    pub fn new() -> VxDtoa { VxDtoa }
    #[verifier::external_body]
    pub fn format(&mut self, x: f32) -> (r: &str) ensures plain(r@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_without_suffix<'a>(s: &'a str, t: &str) -> (r: &'a str) ensures r@ == s@ || (r@.len() <= s@.len() && r@ == s@.take(r@.len() as int)) { s.strip_suffix(t).unwrap_or(s) }
impl Length {
//@fn Length::push_to_string
//@opt noreveal
//@subst dtoa::Buffer::new() ==> VxDtoa::new()
//@subst result.strip_suffix(".0").unwrap_or(result) ==> vx_without_suffix(result, ".0")
//@subst self.value.0 != 0.0 ==> vx_nonzero(self.value.0)
//@spec
    ensures at(*old(output)) is AVal ==> at(*final(output)) == at(*old(output))
//@start
    broadcast use group_run;
//@endfn
//@fn Length::from_parts
//@ret r
//@subst value.0.is_finite() ==> vx_finite(value.0)
//@spec
    ensures r == (if finite(value.0) { Some(Length { value, unit }) } else { None })
//@endfn
//@fn Length::is_negative
//@opt noconst
//@subst self.value.0 < 0.0 ==> vx_negative(self.value.0)
//@endfn
}
//@extract struct LengthSet #[derive(Clone, Copy)]
//@extract struct Iter
/// the components that are not zero
pub open spec fn part(v: LengthValue, unit: LengthUnit) -> Seq<Length> { if nonzero(v.0) { seq![Length { value: v, unit }] } else { seq![] } }
pub open spec fn comps(l: LengthSet) -> Seq<Length> { part(l.rem, LengthUnit::Rem) + part(l.em, LengthUnit::Em) + part(l.ex, LengthUnit::Ex) }
pub open spec fn set_ok(l: LengthSet) -> bool { finite(l.rem.0) && finite(l.em.0) && finite(l.ex.0) }
impl Iter {
//@fn LengthSet::iter>><Iterator>Iter::next
//@ret r
//@sig pub fn next(&mut self) -> (r: Option<Length>)
//@subst self.0.rem.0 != 0.0 ==> vx_nonzero(self.0.rem.0)
//@subst self.0.em.0 != 0.0 ==> vx_nonzero(self.0.em.0)
//@subst self.0.ex.0 != 0.0 ==> vx_nonzero(self.0.ex.0)
//@spec
    requires set_ok(old(self).0)
    ensures
        set_ok(final(self).0),
        comps(old(self).0).len() == 0 ==> r.is_none() && comps(final(self).0).len() == 0,
        comps(old(self).0).len() > 0 ==> r == Some(comps(old(self).0)[0]) && comps(final(self).0) =~= comps(old(self).0).skip(1),
//@start
    broadcast use axiom_zero;
//@endfn
}
impl LengthSet {
//@fn LengthSet::iter
//@sig pub fn iter(self) -> (r: Iter)
//@spec
    ensures r.0 == self
//@endfn
}

// ---- tables ----
//@file crates/mathml-renderer/src/table.rs
//@extract enum ColumnAlignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LineType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum ColumnSpecEntry #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract type ColumnSpec
//@extract struct ArraySpec
//@extract enum Alignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct RowLabelInfo
//@extract struct EquationTag #[derive(Clone, Copy)]
//@extract enum AlignmentType
//@extract struct ColumnGenerator
//@extract static DEFAULT_COLUMN_SPEC
//@extract const MTD_OPEN_STYLE
//@extract const MTD_CLOSE_STYLE
//@extract const LEFT_ALIGN
//@extract const RIGHT_ALIGN
//@extract const PADDING_RIGHT_ZERO
//@extract const PADDING_LEFT_ZERO
//@extract const PADDING_TOP_BOTTOM_ZERO
//@extract const BORDER_RIGHT_SOLID
//@extract const BORDER_RIGHT_DASHED
//@extract const BORDER_TOP_SOLID
//@extract const BORDER_TOP_DASHED
//@extract const SIMPLE_CENTERED
#[verifier::external_body]
pub fn vx_nz_get(n: &NonZeroU16) -> (r: u16) ensures r > 0 { n.get() }

//@file crates/mathml-renderer/src/table.rs
/// a cell can be opened where the reader is
pub open spec fn cell_next(s: String) -> bool { at(s) is C && may_open(at(s)->C_0, N_MTD()) }
pub open spec fn cell_open(a: St, s: String) -> bool { at(s) == St::C(open(a->C_0, N_MTD())) }
impl<'arena> ColumnGenerator<'arena> {
//@fn ColumnGenerator::new_predefined
//@ret r
//@spec
    ensures r.fresh()
//@endfn
//@fn ColumnGenerator::new_custom
//@ret r
//@spec
    ensures r.typ is Custom, r.column_idx == 0, r.row_idx == 0
//@endfn
//@fn ColumnGenerator::new_multline
//@ret r
//@spec
    ensures r.fresh()
//@endfn
    pub open spec fn narrow(self) -> bool { match self.typ { AlignmentType::Custom(a) => a.column_spec@.len() <= isize::MAX, _ => true } }
    pub open spec fn fresh(self) -> bool { self.column_idx == 0 && self.row_idx == 0 }
    /// at most `n` columns and rows so far
    pub open spec fn bounded(self, n: int) -> bool { self.row_idx <= n && self.column_idx <= n + match self.typ { AlignmentType::Custom(a) => a.column_spec@.len() as int, _ => 0 } }
    pub open spec fn more(self) -> bool { self.row_idx < usize::MAX && self.column_idx < usize::MAX && match self.typ { AlignmentType::Custom(a) => a.column_spec@.len() < usize::MAX, _ => true } }
//@fn ColumnGenerator::reset_to_new_row
//@spec
    requires old(self).row_idx < usize::MAX
    ensures final(self).column_idx == 0, final(self).row_idx == old(self).row_idx + 1, final(self).typ == old(self).typ
//@endfn
//@fn ColumnGenerator::set_row_border_top
//@spec
    ensures final(self).column_idx == old(self).column_idx, final(self).row_idx == old(self).row_idx, final(self).typ == old(self).typ
//@endfn
//@fn ColumnGenerator::write_next_mtd
//@ret r
//@opt noreveal
//@spec
    requires cell_next(*old(s)), old(self).more()
    ensures r.is_ok(), cell_open(at(*old(s)), *final(s)), final(self).typ == old(self).typ, final(self).row_idx == old(self).row_idx,
        old(self).typ is Custom ==> final(self).column_idx <= old(self).column_idx + 1 || final(self).column_idx <= old(self).typ->Custom_0.column_spec@.len() + 1,
        !(old(self).typ is Custom) ==> final(self).column_idx == old(self).column_idx + 1,
//@start
    broadcast use group_run;
    let ghost g = *self;
    let ghost k = at(*s)->C_0;
//@loop 0
    invariant
        at(*s) == St::C(k), may_open(k, N_MTD()), quiet(border_top@), g.typ == AlignmentType::Custom(array_spec), self.typ == g.typ, self.row_idx == g.row_idx,
        array_spec.column_spec@.len() < usize::MAX,
        g.column_idx < self.column_idx, self.column_idx <= g.column_idx + 1 || self.column_idx <= array_spec.column_spec@.len() + 1,
        column_spec is OnlyLine ==> self.column_idx <= array_spec.column_spec@.len(),
    ensures !(column_spec is OnlyLine)
    decreases array_spec.column_spec@.len() + 1 - self.column_idx
//@loopstart 0
    broadcast use group_run;
//@afterloop 0
    broadcast use group_run;
//@endfn
}
//@fn write_simple_mtd
//@ret r
//@vis pub
//@opt noreveal
//@spec
    requires cell_next(*old(s)), quiet(border_top@)
    ensures r.is_ok(), cell_open(at(*old(s)), *final(s))
//@start
    broadcast use group_run;
//@endfn

// ---- operators ----
//@file crates/mathml-renderer/src/attribute.rs
//@bitflags OpAttrs #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@bitflags Notation #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LetterAttr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Size #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum FracAttr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum MathSpacing #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum HtmlTextStyle #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum HtmlTextSize #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct RowAttrs #[derive(Clone, Copy)]
//@strum-str Size vx_size_name lit
//@strum-str FracAttr vx_frac_name lit
//@strum-str Style vx_style_name lit
//@strum-str MathSpacing vx_spacing_name lit
//@strum-str HtmlTextSize vx_text_size_name lit
impl VxName for Size { open spec fn name(self) -> Seq<char> { vx_size_name_spec(self) } fn vx_str(self) -> &'static str { vx_size_name(self) } }
impl VxName for FracAttr { open spec fn name(self) -> Seq<char> { vx_frac_name_spec(self) } fn vx_str(self) -> &'static str { vx_frac_name(self) } }
impl VxName for Style { open spec fn name(self) -> Seq<char> { vx_style_name_spec(self) } fn vx_str(self) -> &'static str { vx_style_name(self) } }
impl VxName for MathSpacing { open spec fn name(self) -> Seq<char> { vx_spacing_name_spec(self) } fn vx_str(self) -> &'static str { vx_spacing_name(self) } }
impl VxName for HtmlTextSize { open spec fn name(self) -> Seq<char> { vx_text_size_name_spec(self) } fn vx_str(self) -> &'static str { vx_text_size_name(self) } }
/// the attributes an operator can have
pub open spec fn op_attr(n: int) -> bool { n == A_STRETCHY() || n == A_MOVABLELIMITS() || n == A_FORM() || n == A_SYMMETRIC() || n == A_LARGEOP() }
pub open spec fn attrs_ok(a: OpAttrs) -> bool {
    &&& !(a.has(OpAttrs::STRETCHY_FALSE) && a.has(OpAttrs::STRETCHY_TRUE))
    &&& !(a.has(OpAttrs::NO_MOVABLE_LIMITS) && a.has(OpAttrs::FORCE_MOVABLE_LIMITS))
    &&& !(a.has(OpAttrs::FORM_PREFIX) && a.has(OpAttrs::FORM_POSTFIX))
    &&& !(a.has(OpAttrs::FORM_INFIX) && a.has(OpAttrs::FORM_POSTFIX))
    &&& !(a.has(OpAttrs::FORM_PREFIX) && a.has(OpAttrs::FORM_INFIX))
}
/// inside the tag of an operator, which has no attributes but those
pub open spec fn in_op(st: St, k: Stk) -> bool { st == St::Tag(k, N_MO(), st->Tag_2, st->Tag_3) && (forall|n: int| #[trigger] st->Tag_2.contains(n) ==> op_attr(n)) }
impl OpAttrs {
//@fn OpAttrs::write_to
//@opt noreveal
//@spec
    requires at(*old(s)) is Tag, at(*old(s))->Tag_1 == N_MO(), at(*old(s))->Tag_2 == Set::<int>::empty(), attrs_ok(self)
    ensures in_op(at(*final(s)), at(*old(s))->Tag_0)
//@start
    broadcast use group_run;
//@endfn
}
//@file crates/mathml-renderer/src/ast.rs
//@bitflags InnerWarnings #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct Warnings #[derive(Clone, Copy)]
//@extract struct AHref #[derive(Clone, Copy)]
//@extract struct MultiscriptPair #[derive(Clone, Copy)]
//@extract enum Node #[allow(inconsistent_fields)]
//@extract struct CssClassNames
//@extract enum NumberColums #[derive(Clone, Copy, PartialEq, Eq, Structural)]
/// the table of labels: a map from names to tags
pub struct VxLabels;
impl VxLabels {
    #[verifier::external_body]
    pub fn get(&self, label: &str) -> (r: Option<&str>) { unimplemented!() }
}
//@extract struct Emitter
//@subst percent_encode(link_target.as_bytes(), FRAGMENT_SAFE) ==> vx_percent(link_target, &vx_fragment_safe())
//@subst percent_encode(label.as_bytes(), FRAGMENT_SAFE) ==> vx_percent(label, &vx_fragment_safe())
//@file crates/mathml-renderer/src/escaping.rs
/// a set of ASCII characters of the `percent_encoding` crate
#[verifier::external_body]
pub struct AsciiSet { m: u8 }
impl AsciiSet {
    pub uninterp spec fn has(&self, b: u8) -> bool;
    #[verifier::external_body]
    pub fn add(&self, b: u8) -> (r: AsciiSet) ensures forall|c: u8| #[trigger] r.has(c) == (self.has(c) || c == b) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&self, b: u8) -> (r: AsciiSet) ensures forall|c: u8| #[trigger] r.has(c) == (self.has(c) && c != b) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_controls() -> (r: AsciiSet) { unimplemented!() }
//@fn const:FRAGMENT_SAFE as vx_fragment_safe
//@ret r
//@sig pub fn vx_fragment_safe() -> (r: AsciiSet)
//@subst & CONTROLS ==> vx_controls()
//@spec
    ensures r.has(34), r.has(60), r.has(62)
//@endfn
//@file crates/mathml-renderer/src/ast.rs
/// the percent-encoded text: the ASCII characters of the set are replaced, all others are kept
pub struct VxPercent { pub t: Ghost<Seq<char>> }
impl VxDisp for VxPercent { open spec fn vx_text(&self) -> Seq<char> { self.t@ } }
pub open spec fn no_amp(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '&' }
#[verifier::external_body]
pub fn vx_percent(s: &str, set: &AsciiSet) -> (r: VxPercent)
    ensures set.has(34) && set.has(60) && set.has(62) && (set.has(38) || no_amp(s@)) ==> plain(r.vx_text())
{ unimplemented!() }

//@fn emit_operator_attributes
//@ret r
//@vis pub
//@opt noreveal
//@spec
    requires at(*old(s)) is C, attrs_ok(attrs)
    ensures r.is_ok(), at(*final(s)) == St::Tag(at(*old(s))->C_0, N_MO(), at(*final(s))->Tag_2, at(*final(s))->Tag_3), !at(*final(s))->Tag_2.contains(A_MINSIZE()), !at(*final(s))->Tag_2.contains(A_MAXSIZE())
//@start
    broadcast use group_run;
//@endfn
impl NumberColums {
//@fn NumberColums::dummy_column_opening
//@ret r
//@opt noreveal
//@spec
    requires cell_next(*old(s))
    ensures r.is_ok(), at(*final(s)) == St::AVal(at(*old(s))->C_0, N_MTD(), at(*final(s))->AVal_2), !at(*final(s))->AVal_2.contains(A_ID())
//@start
    broadcast use group_run;
//@endfn
//@fn NumberColums::initial_dummy_column
//@ret r
//@opt noreveal
//@spec
    requires cell_next(*old(s))
    ensures r.is_ok(), at(*final(s)) == at(*old(s))
//@start
    broadcast use group_run;
//@endfn
}
pub open spec fn label_ok(l: Option<&RowLabelInfo>) -> bool {
    match l { Some(l) => match l.link_target { Some(t) => no_amp(t@), None => true }, None => true }
}
//@fn write_equation_num
//@ret r
//@vis pub
//@opt noreveal
//@spec
    requires cell_next(*old(s)), label_ok(label_info), quiet(id_prefix@)
    ensures r.is_ok(), at(*final(s)) == at(*old(s))
//@start
    broadcast use group_run;
//@endfn

// ---- trees ----
pub open spec fn sep_ok(n: Node) -> bool {
    match n { Node::ColumnSeparator => true, Node::RowSeparator { label_info, border_top } => label_ok(label_info), _ => false }
}
/// A tree of height at most `h` that can be rendered: separators only directly inside tables, no contradictory
/// operator attributes, finite lengths, and nothing that needs escaping where nothing is escaped.
#[verifier::opaque]
pub open spec fn ok_h(n: Node, h: nat) -> bool decreases h {
    h > 0 && match n {
        Node::Number(t) => plain(t@),
        Node::IdentifierChar(c, _) => c.ok() && plain(c.text()),
        Node::IdentifierStr(_) => true,
        Node::Operator { op, attrs, size, left, right } => op.0.ok() && attrs_ok(attrs),
        Node::PseudoOp { attrs, left, right, name } => attrs_ok(attrs),
        Node::Space(_) => true,
        Node::Sub { target, symbol } => ok_h(*target, (h - 1) as nat) && ok_h(*symbol, (h - 1) as nat),
        Node::Sup { target, symbol } => ok_h(*target, (h - 1) as nat) && ok_h(*symbol, (h - 1) as nat),
        Node::SubSup { target, sub, sup } => ok_h(*target, (h - 1) as nat) && ok_h(*sub, (h - 1) as nat) && ok_h(*sup, (h - 1) as nat),
        Node::OverAccent(op, attrs, target) => op.0.ok() && attrs_ok(attrs) && ok_h(*target, (h - 1) as nat),
        Node::UnderAccent(op, attrs, target) => op.0.ok() && attrs_ok(attrs) && ok_h(*target, (h - 1) as nat),
        Node::Over { symbol, target } => ok_h(*target, (h - 1) as nat) && ok_h(*symbol, (h - 1) as nat),
        Node::Under { symbol, target } => ok_h(*target, (h - 1) as nat) && ok_h(*symbol, (h - 1) as nat),
        Node::UnderOver { target, under, over } => ok_h(*target, (h - 1) as nat) && ok_h(*under, (h - 1) as nat) && ok_h(*over, (h - 1) as nat),
        Node::Sqrt(c) => ok_h(*c, (h - 1) as nat),
        Node::Root(a, b) => ok_h(*a, (h - 1) as nat) && ok_h(*b, (h - 1) as nat),
        Node::Frac { num, denom, lt_value, lt_unit, attr } => ok_h(*num, (h - 1) as nat) && ok_h(*denom, (h - 1) as nat),
        Node::Row { nodes, attrs } => forall|i: int| 0 <= i < nodes@.len() ==> ok_h(*#[trigger] nodes@[i], (h - 1) as nat),
        Node::Padded { node, width_0, height_0, left, right, voffset } => ok_h(*node, (h - 1) as nat) && match voffset { Some(v) => set_ok(*v), None => true },
        Node::Phantom { node } => ok_h(*node, (h - 1) as nat),
        Node::Text { text_style, text_size, text } => true,
        Node::AHref(_) => true,
        Node::EqRef(label) => no_amp(label@),
        Node::Table { align, style, border_top, content } => forall|i: int| 0 <= i < content@.len() ==> sep_ok(*#[trigger] content@[i]) || ok_h(*content@[i], (h - 1) as nat),
        Node::EquationArray { align, last_row_info, content } => label_ok(last_row_info) && forall|i: int| 0 <= i < content@.len() ==> sep_ok(*#[trigger] content@[i]) || ok_h(*content@[i], (h - 1) as nat),
        Node::MultLine { num_rows, last_row_info, content } => label_ok(last_row_info) && forall|i: int| 0 <= i < content@.len() ==> sep_ok(*#[trigger] content@[i]) || ok_h(*content@[i], (h - 1) as nat),
        Node::Array { style, array_spec, content } => forall|i: int| 0 <= i < content@.len() ==> sep_ok(*#[trigger] content@[i]) || ok_h(*content@[i], (h - 1) as nat),
        Node::ColumnSeparator => false,
        Node::RowSeparator { label_info, border_top } => false,
        Node::Enclose { content, notation } => ok_h(*content, (h - 1) as nat),
        Node::Multiscripts { base, pre, post } => ok_h(*base, (h - 1) as nat)
            && (forall|i: int| 0 <= i < (*pre)@.len() ==> ok_h(*(#[trigger] (*pre)@[i]).sub, (h - 1) as nat) && ok_h(*(*pre)@[i].sup, (h - 1) as nat))
            && (forall|i: int| 0 <= i < (*post)@.len() ==> ok_h(*(#[trigger] (*post)@[i]).sub, (h - 1) as nat) && ok_h(*(*post)@[i].sup, (h - 1) as nat)),
        Node::UnknownCommand(_) => true,
    }
}
#[verifier::opaque]
pub open spec fn tree_ok(n: Node) -> bool { exists|h: nat| #[trigger] ok_h(n, h) }
/// the least such height
#[verifier::opaque]
pub open spec fn height(n: Node) -> nat { choose|h: nat| #[trigger] ok_h(n, h) && forall|g: nat| g < h ==> !#[trigger] ok_h(n, g) }
proof fn lemma_least(n: Node, h: nat)
    requires ok_h(n, h)
    ensures ok_h(n, height(n)), height(n) <= h
    decreases h
{
    reveal(height);
    if forall|g: nat| g < h ==> !#[trigger] ok_h(n, g) {
        let m = height(n);
        assert(ok_h(n, m) && forall|g: nat| g < m ==> !#[trigger] ok_h(n, g));
        if m > h { assert(!ok_h(n, h)); }
    } else {
        let g = choose|g: nat| g < h && #[trigger] ok_h(n, g);
        lemma_least(n, g);
    }
}
pub proof fn lemma_tree(n: Node)
    requires tree_ok(n)
    ensures ok_h(n, height(n))
{ reveal(tree_ok); lemma_least(n, choose|h: nat| #[trigger] ok_h(n, h)); }
pub broadcast proof fn lemma_height(n: Node, h: nat)
    requires #[trigger] ok_h(n, h)
    ensures tree_ok(n), ok_h(n, height(n)), height(n) <= h
{ reveal(tree_ok); lemma_least(n, h); }
/// the rows of a table
#[verifier::opaque]
pub open spec fn rows_ok(c: Seq<&Node>, h: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> sep_ok(*#[trigger] c[i]) || ok_h(*c[i], h) }
#[verifier::opaque]
pub open spec fn rows_height(c: Seq<&Node>) -> nat { choose|h: nat| #[trigger] rows_ok(c, h) && forall|g: nat| g < h ==> !#[trigger] rows_ok(c, g) }
proof fn lemma_rows_least(c: Seq<&Node>, h: nat)
    requires rows_ok(c, h)
    ensures rows_ok(c, rows_height(c)), rows_height(c) <= h
    decreases h
{
    reveal(rows_height);
    if forall|g: nat| g < h ==> !#[trigger] rows_ok(c, g) {
        let m = rows_height(c);
        assert(rows_ok(c, m) && forall|g: nat| g < m ==> !#[trigger] rows_ok(c, g));
        if m > h { assert(!rows_ok(c, h)); }
    } else {
        let g = choose|g: nat| g < h && #[trigger] rows_ok(c, g);
        lemma_rows_least(c, g);
    }
}
/// a child of height at most `h`
pub open spec fn kid(n: Node, h: nat) -> bool { ok_h(n, h) && tree_ok(n) && ok_h(n, height(n)) && height(n) <= h }
/// what `ok_h` says about the children
pub proof fn lemma_kids(n: Node, h: nat)
    requires ok_h(n, h)
    ensures
        h > 0 && match n {
            Node::Number(t) => plain(t@),
            Node::IdentifierChar(c, _) => c.ok() && plain(c.text()),
            Node::IdentifierStr(_) => true,
            Node::Operator { op, attrs, size, left, right } => op.0.ok() && attrs_ok(attrs),
            Node::PseudoOp { attrs, left, right, name } => attrs_ok(attrs),
            Node::Space(_) => true,
            Node::Sub { target, symbol } => kid(*target, (h - 1) as nat) && kid(*symbol, (h - 1) as nat),
            Node::Sup { target, symbol } => kid(*target, (h - 1) as nat) && kid(*symbol, (h - 1) as nat),
            Node::SubSup { target, sub, sup } => kid(*target, (h - 1) as nat) && kid(*sub, (h - 1) as nat) && kid(*sup, (h - 1) as nat),
            Node::OverAccent(op, attrs, target) => op.0.ok() && attrs_ok(attrs) && kid(*target, (h - 1) as nat),
            Node::UnderAccent(op, attrs, target) => op.0.ok() && attrs_ok(attrs) && kid(*target, (h - 1) as nat),
            Node::Over { symbol, target } => kid(*target, (h - 1) as nat) && kid(*symbol, (h - 1) as nat),
            Node::Under { symbol, target } => kid(*target, (h - 1) as nat) && kid(*symbol, (h - 1) as nat),
            Node::UnderOver { target, under, over } => kid(*target, (h - 1) as nat) && kid(*under, (h - 1) as nat) && kid(*over, (h - 1) as nat),
            Node::Sqrt(c) => kid(*c, (h - 1) as nat),
            Node::Root(a, b) => kid(*a, (h - 1) as nat) && kid(*b, (h - 1) as nat),
            Node::Frac { num, denom, lt_value, lt_unit, attr } => kid(*num, (h - 1) as nat) && kid(*denom, (h - 1) as nat),
            Node::Row { nodes, attrs } => forall|i: int| 0 <= i < nodes@.len() ==> kid(*#[trigger] nodes@[i], (h - 1) as nat),
            Node::Padded { node, width_0, height_0, left, right, voffset } => kid(*node, (h - 1) as nat) && match voffset { Some(v) => set_ok(*v), None => true },
            Node::Phantom { node } => kid(*node, (h - 1) as nat),
            Node::Text { text_style, text_size, text } => true,
            Node::AHref(_) => true,
            Node::EqRef(label) => no_amp(label@),
            Node::Table { align, style, border_top, content } => rows_ok(content@, (h - 1) as nat) && rows_height(content@) <= h - 1,
            Node::EquationArray { align, last_row_info, content } => label_ok(last_row_info) && rows_ok(content@, (h - 1) as nat) && rows_height(content@) <= h - 1,
            Node::MultLine { num_rows, last_row_info, content } => label_ok(last_row_info) && rows_ok(content@, (h - 1) as nat) && rows_height(content@) <= h - 1,
            Node::Array { style, array_spec, content } => rows_ok(content@, (h - 1) as nat) && rows_height(content@) <= h - 1,
            Node::ColumnSeparator => false,
            Node::RowSeparator { label_info, border_top } => false,
            Node::Enclose { content, notation } => kid(*content, (h - 1) as nat),
            Node::Multiscripts { base, pre, post } => kid(*base, (h - 1) as nat)
                && (forall|i: int| 0 <= i < (*pre)@.len() ==> kid(*(#[trigger] (*pre)@[i]).sub, (h - 1) as nat) && kid(*(*pre)@[i].sup, (h - 1) as nat))
                && (forall|i: int| 0 <= i < (*post)@.len() ==> kid(*(#[trigger] (*post)@[i]).sub, (h - 1) as nat) && kid(*(*post)@[i].sup, (h - 1) as nat)),
            Node::UnknownCommand(_) => true,
        }
{
    broadcast use lemma_height;
    reveal(rows_ok);
    reveal_with_fuel(ok_h, 1);
    match n {
        Node::Table { align, style, border_top, content } => { assert(rows_ok(content@, (h - 1) as nat)); lemma_rows_least(content@, (h - 1) as nat); }
        Node::EquationArray { align, last_row_info, content } => { assert(rows_ok(content@, (h - 1) as nat)); lemma_rows_least(content@, (h - 1) as nat); }
        Node::MultLine { num_rows, last_row_info, content } => { assert(rows_ok(content@, (h - 1) as nat)); lemma_rows_least(content@, (h - 1) as nat); }
        Node::Array { style, array_spec, content } => { assert(rows_ok(content@, (h - 1) as nat)); lemma_rows_least(content@, (h - 1) as nat); }
        Node::Row { nodes, attrs } => { assert forall|i: int| 0 <= i < nodes@.len() implies kid(*#[trigger] nodes@[i], (h - 1) as nat) by { assert(ok_h(*nodes@[i], (h - 1) as nat)); } }
        Node::Multiscripts { base, pre, post } => {
            assert(ok_h(*base, (h - 1) as nat));
            assert forall|i: int| 0 <= i < (*pre)@.len() implies kid(*(#[trigger] (*pre)@[i]).sub, (h - 1) as nat) && kid(*(*pre)@[i].sup, (h - 1) as nat) by { assert(ok_h(*(*pre)@[i].sub, (h - 1) as nat)); assert(ok_h(*(*pre)@[i].sup, (h - 1) as nat)); }
            assert forall|i: int| 0 <= i < (*post)@.len() implies kid(*(#[trigger] (*post)@[i]).sub, (h - 1) as nat) && kid(*(*post)@[i].sup, (h - 1) as nat) by { assert(ok_h(*(*post)@[i].sub, (h - 1) as nat)); assert(ok_h(*(*post)@[i].sup, (h - 1) as nat)); }
        }
        Node::Sub { target, symbol } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*symbol, (h - 1) as nat)); }
        Node::Sup { target, symbol } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*symbol, (h - 1) as nat)); }
        Node::Over { target, symbol } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*symbol, (h - 1) as nat)); }
        Node::Under { target, symbol } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*symbol, (h - 1) as nat)); }
        Node::SubSup { target, sub, sup } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*sub, (h - 1) as nat)); assert(ok_h(*sup, (h - 1) as nat)); }
        Node::UnderOver { target, under, over } => { assert(ok_h(*target, (h - 1) as nat)); assert(ok_h(*under, (h - 1) as nat)); assert(ok_h(*over, (h - 1) as nat)); }
        Node::OverAccent(op, attrs, target) => { assert(ok_h(*target, (h - 1) as nat)); }
        Node::UnderAccent(op, attrs, target) => { assert(ok_h(*target, (h - 1) as nat)); }
        Node::Sqrt(c) => { assert(ok_h(*c, (h - 1) as nat)); }
        Node::Root(a, b) => { assert(ok_h(*a, (h - 1) as nat)); assert(ok_h(*b, (h - 1) as nat)); }
        Node::Frac { num, denom, lt_value, lt_unit, attr } => { assert(ok_h(*num, (h - 1) as nat)); assert(ok_h(*denom, (h - 1) as nat)); }
        Node::Padded { node, width_0, height_0, left, right, voffset } => { assert(ok_h(*node, (h - 1) as nat)); }
        Node::Phantom { node } => { assert(ok_h(*node, (h - 1) as nat)); }
        Node::Enclose { content, notation } => { assert(ok_h(*content, (h - 1) as nat)); }
        _ => {}
    }
}
/// `n` more `mpadded` around
#[verifier::opaque]
pub open spec fn padded(k: Stk, n: nat) -> Stk decreases n { if n == 0 { k } else { open(padded(k, (n - 1) as nat), N_MPADDED()) } }
pub proof fn lemma_padded(k: Stk, n: nat)
    ensures padded(k, 0) == k, n > 0 ==> padded(k, n) == open(padded(k, (n - 1) as nat), N_MPADDED()), padded(k, n + 1) == open(padded(k, n), N_MPADDED())
{ reveal_with_fuel(padded, 3); }
/// `mmultiscripts` with its base and any number of pairs
pub open spec fn scripts(k: Stk, pre: bool) -> Stk { Stk::Cons { t: N_MMULTISCRIPTS(), n: 1, pre, rest: Box::new(bump(k)) } }
/// slices are at most `isize::MAX` bytes long, and a reference has eight
#[verifier::external_body]
pub proof fn axiom_slices(c: &[&Node], a: &[ColumnSpecEntry]) ensures c@.len() <= isize::MAX / 8, a@.len() <= isize::MAX { }

impl Warnings {
//@fn Warnings::new
//@ret r
//@endfn
//@fn Warnings::set_undefined_references
//@endfn
//@fn Warnings::set_unknown_commands
//@endfn
}
impl<'state> Emitter<'state> {
    pub open spec fn env_ok(self) -> bool { quiet(self.css_classes.unknown_command@) && quiet(self.id_prefix@) }
    pub open spec fn same(self, o: Self) -> bool { self.css_classes == o.css_classes && self.id_prefix == o.id_prefix && self.indentation == o.indentation && self.label_map == o.label_map }
//@fn Emitter::new
//@ret r
//@spec
    ensures r.s == s, r.css_classes == css_classes, r.id_prefix == id_prefix, r.indentation == indentation, r.label_map == label_map
//@endfn
//@fn Emitter::into_string
//@ret r
//@spec
    ensures r == self.s
//@endfn
//@fn Emitter::warnings
//@ret r
//@endfn
//@fn Emitter::emit
//@ret r
//@opt noreveal
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(60)]
//@subst for voffset_length in voffset_iter ==> while let Some(voffset_length) = voffset_iter.next()
//@subst for _ in voffset.iter().skip(1) ==> let mut vx_rest = voffset.iter(); vx_rest.next(); while let Some(_) = vx_rest.next()
//@spec
    requires at(old(self).s) is C, accepts(at(old(self).s)->C_0), tree_ok(*node), old(self).env_ok()
    ensures r.is_ok(), at(final(self).s) == St::C(bump(at(old(self).s)->C_0)), final(self).same(*old(self))
    decreases height(*node), 1nat
//@start
    broadcast use group_run;
    proof { lemma_tree(*node); }
//@outlineattr #[verifier::spinoff_prover]
//@outlineattr #[verifier::rlimit(60)]
//@outline node: &Node<'_>, vx_node: &Node<'_>, base_indent: usize, child_indent: usize
    requires node == vx_node, at(old(self).s) is C, accepts(at(old(self).s)->C_0), tree_ok(*node), ok_h(*node, height(*node)), old(self).env_ok(), VX_CASE
    ensures r.is_ok(), at(final(self).s) == St::C(bump(at(old(self).s)->C_0)), final(self).same(*old(self))
    decreases height(*vx_node), 0nat
//@outlinestart
    broadcast use group_run;
    let ghost k = at(self.s)->C_0;
    let ghost h = height(*node);
    let ghost e0 = *self;
    let ghost node0 = node;
    let ghost total = match *node { Node::Padded { voffset: Some(v), .. } => if comps(*v).len() == 0 { 1int } else { comps(*v).len() as int }, _ => 1 };
    let ghost names = match *node { Node::Padded { voffset: Some(v), .. } => if comps(*v).len() == 0 { Set::<int>::empty() } else { Set::<int>::empty().insert(A_VOFFSET()) }, _ => Set::<int>::empty() };
    let ghost after = match *node { Node::Padded { voffset: Some(v), .. } => if comps(*v).len() == 0 { 0int } else { 1 }, _ => 0 };
    proof {
        lemma_kids(*node, h);
        lemma_padded(k, (total - 1) as nat);
        lemma_padded(k, 0);
    }
//@forvar 0 it
//@loop 0
    invariant
        node == vx_node, *node == (Node::Multiscripts { base, pre, post }), ok_h(*node, h), h == height(*node), it.seq().len() == (*post)@.len(), forall|i: int| 0 <= i < (*post)@.len() ==> *#[trigger] it.seq()[i] == (*post)@[i],
        at(self.s) == St::C(scripts(k, false)), self.same(e0), self.env_ok(),
//@loopstart 0
    broadcast use group_run;
    proof { lemma_kids(*node, h); assert((*post)@[it.index@ as int] == *vx_r0); }
//@forvar 1 jt
//@loop 1
    invariant
        node == vx_node, *node == (Node::Multiscripts { base, pre, post }), ok_h(*node, h), h == height(*node), jt.seq().len() == (*pre)@.len(), forall|i: int| 0 <= i < (*pre)@.len() ==> *#[trigger] jt.seq()[i] == (*pre)@[i],
        at(self.s) == St::C(scripts(k, true)), self.same(e0), self.env_ok(),
//@loopstart 1
    broadcast use group_run;
    proof { lemma_kids(*node, h); assert((*pre)@[jt.index@ as int] == *vx_r1); }
//@forvar 2 rt
//@loop 2
    invariant
        *node0 == *vx_node, *node0 == (Node::Row { nodes, attrs: RowAttrs { color, style, math_shift_compact } }), ok_h(*node0, h), h == height(*node0), rt.seq().len() == nodes@.len(), forall|i: int| 0 <= i < nodes@.len() ==> *#[trigger] rt.seq()[i] == nodes@[i],
        at(self.s) == St::C(open(k, N_MROW())), self.same(e0), self.env_ok(),
//@loopstart 2
    broadcast use group_run;
    proof { lemma_kids(*node0, h); match *node0 { Node::Row { nodes: nn, attrs } => { assert(nn@[rt.index@ as int] == *node); } _ => {} } }
//@loop 3
    invariant
        set_ok(voffset_iter.0), 0 <= comps(voffset_iter.0).len() < total, accepts(k), total >= 1, comps(voffset_iter.0).len() > 0 ==> names == Set::<int>::empty().insert(A_VOFFSET()) && after == 1,
        at(self.s) == St::Tag(padded(k, (total - 1 - comps(voffset_iter.0).len()) as nat), N_MPADDED(), names, after), self.same(e0), self.env_ok(),
    ensures comps(voffset_iter.0).len() == 0
    decreases comps(voffset_iter.0).len()
//@loopstart 3
    broadcast use group_run;
    proof { let vx_n = total - 1 - comps(voffset_iter.0).len(); lemma_padded(k, vx_n as nat); if vx_n > 0 { lemma_padded(k, (vx_n - 1) as nat); } }
//@loop 4
    invariant
        set_ok(vx_rest.0), comps(vx_rest.0).len() < total || comps(vx_rest.0).len() == 0, accepts(k),
        at(self.s) == St::C(bump(padded(k, comps(vx_rest.0).len() as nat))), self.same(e0), self.env_ok(),
    ensures comps(vx_rest.0).len() == 0
    decreases comps(vx_rest.0).len()
//@loopstart 4
    broadcast use group_run;
    proof { lemma_padded(k, comps(vx_rest.0).len() as nat); }
//@endfn
//@fn Emitter::emit_table
//@ret r
//@opt noreveal
//@attr #[verifier::spinoff_prover]
//@attr #[verifier::rlimit(100)]
//@spec
    requires
        at(old(self).s) is C, top_is(at(old(self).s)->C_0, N_MTABLE()), exists|h: nat| #[trigger] rows_ok(content@, h), old(self).env_ok(), label_ok(last_row_info), col_gen.fresh(),
    ensures r.is_ok(), at(final(self).s) == St::C(pop(at(old(self).s)->C_0)), final(self).same(*old(self))
    decreases rows_height(content@), 2nat
//@start
    broadcast use {group_run, lemma_height};
    let ghost tb = at(self.s)->C_0;
    let ghost e0 = *self;
    let ghost g0 = col_gen;
    let ghost h = rows_height(content@);
    let ghost n0 = content@.len();
    proof {
        lemma_rows_least(content@, choose|h: nat| #[trigger] rows_ok(content@, h));
        match col_gen.typ { AlignmentType::Custom(a) => axiom_slices(content, a.column_spec), _ => axiom_slices(content, &[]) }
    }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == content@.len(), forall|i: int| 0 <= i < content@.len() ==> *#[trigger] it.seq()[i] == content@[i], rows_ok(content@, h), h == rows_height(content@), content@.len() <= isize::MAX / 8,
        at(self.s) == St::C(open(open(tb, N_MTR()), N_MTD())), top_is(tb, N_MTABLE()), self.same(e0), self.env_ok(),
        col_gen.typ == g0.typ, col_gen.bounded(it.index@ + 2), g0.narrow(),
//@loopstart 0
    broadcast use {group_run, lemma_height};
    reveal(rows_ok);
    proof { assert(content@[it.index@ as int] == *node); if ok_h(**node, h) { lemma_kids(**node, h); } }
//@endfn
}
// ---- the document ----
//@file crates/math-core/src/lib.rs
//@extract enum MathDisplay #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum PrettyPrint #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct EmitterConfig
//@extract struct ConvertResult
/// the arena hands out references to what is put into it
pub struct Arena;
impl Arena {
    #[verifier::external_body]
    pub fn push<'a>(&'a self, n: Node<'a>) -> (r: &'a Node<'a>) ensures *r == n { unimplemented!() }
    #[verifier::external_body]
    pub fn push_slice<'a>(&'a self, n: &[&'a Node<'a>]) -> (r: &'a [&'a Node<'a>]) ensures r@ == n@ { unimplemented!() }
}
pub fn vx_single<'a, T>(s: &'a [T]) -> (r: Option<&'a T>)
    ensures match r { Some(x) => s@.len() == 1 && *x == s@[0], None => s@.len() != 1 }
{ if s.len() == 1 { Some(&s[0]) } else { None } }
#[verifier::external_body]
pub fn vx_take_string(s: &mut String) -> (r: String) ensures r == *old(s), final(s)@.len() == 0 { core::mem::take(s) }
/// proved in the unit of C01
#[verifier::external_body]
pub fn escape_html_content(output: &mut String, input: &str) ensures final(output)@ == old(output)@ + content(input@) { unimplemented!() }
proof fn lemma_content(k: Stk, s: Seq<char>)
    requires texty(k)
    ensures run(St::C(k), content(s)) == St::C(k)
    decreases s.len()
{
    broadcast use {group_lits, lemma_run_cat, lemma_run_nil};
    if s.len() > 0 { lemma_content(k, s.drop_last()); lemma_one(k, s.last()); assert(content1(s.last()) =~= esc3(s.last())); }
}
pub broadcast proof fn lemma_after_content(st: St, a: Seq<char>, s: Seq<char>)
    ensures run(st, a) is C && texty(run(st, a)->C_0) ==> #[trigger] run(st, a + content(s)) == run(st, a)
{ lemma_run_cat(st, a, content(s)); if run(st, a) is C && texty(run(st, a)->C_0) { lemma_content(run(st, a)->C_0, s); } }
proof fn lemma_mono(n: Node, h: nat)
    requires ok_h(n, h)
    ensures ok_h(n, h + 1)
    decreases h
{
    reveal_with_fuel(ok_h, 1);
    lemma_kids(n, h);
    reveal(rows_ok);
    assert forall|m: Node| #![trigger ok_h(m, (h - 1) as nat)] #![trigger ok_h(m, h)] ok_h(m, (h - 1) as nat) implies ok_h(m, h) by { lemma_mono(m, (h - 1) as nat); }
}
pub open spec fn all_ok(s: Seq<&Node>) -> bool { forall|i: int| 0 <= i < s.len() ==> tree_ok(*#[trigger] s[i]) }
proof fn lemma_row(s: Seq<&Node>) -> (h: nat)
    requires all_ok(s)
    ensures forall|i: int| 0 <= i < s.len() ==> ok_h(*#[trigger] s[i], h)
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        assert(all_ok(s.drop_last())) by { assert forall|i: int| 0 <= i < s.drop_last().len() implies tree_ok(*#[trigger] s.drop_last()[i]) by { assert(tree_ok(*s[i])); } }
        let a = lemma_row(s.drop_last());
        assert(tree_ok(*s[s.len() - 1]));
        lemma_tree(*s.last());
        let b = height(*s.last());
        let m = if a < b { b } else { a };
        assert forall|i: int| 0 <= i < s.len() implies ok_h(*#[trigger] s[i], m) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_raise(*s[i], a, m); } else { lemma_raise(*s[i], b, m); }
        }
        m
    }
}
proof fn lemma_raise(n: Node, a: nat, b: nat)
    requires ok_h(n, a), a <= b
    ensures ok_h(n, b)
    decreases b - a
{ if a < b { lemma_mono(n, a); lemma_raise(n, a + 1, b); } }
/// some attributes (whichever they are)
#[verifier::external_body]
pub fn vx_row_attrs() -> RowAttrs { unimplemented!() }
//@file crates/math-core/src/parser.rs
//@fn node_vec_to_node
//@ret r
//@vis pub
//@opt noreveal
//@subst? RowAttrs::DEFAULT ==> vx_row_attrs()
//@subst let [single] = nodes ==> let Some(single) = vx_single(nodes)
//@spec
    requires all_ok(nodes@)
    ensures tree_ok(*r)
//@start
    broadcast use lemma_height;
    proof {
        let h = lemma_row(nodes@);
        reveal_with_fuel(ok_h, 1);
        if nodes@.len() == 1 { assert(tree_ok(*nodes@[0])); lemma_tree(*nodes@[0]); lemma_kids(*nodes@[0], height(*nodes@[0])); }
        assert forall|n: Node| (match n { Node::Row { nodes: m, attrs } => m@ == nodes@, _ => false }) implies #[trigger] tree_ok(n) by { assert(ok_h(n, h + 1)); }
        assert forall|n: Node| (match n { Node::Operator { op, attrs, size, left, right } => op.0.ok() && attrs_ok(attrs), _ => false }) implies #[trigger] tree_ok(n) by { assert(ok_h(n, 1)); }
    }
//@endfn
//@subst parser::node_vec_to_node ==> node_vec_to_node
//@subst html_utils::escape_html_content ==> escape_html_content
//@subst core::mem::take(&mut output) ==> vx_take_string(&mut output)
//@file crates/math-core/src/lib.rs
//@fn emit
//@ret r
//@vis pub
//@opt noreveal
//@spec
    requires all_ok(ast@), quiet(flags.css_classes.unknown_command@), quiet(flags.id_prefix@)
    ensures at(r.mathml) == St::C(Stk::Nil)
//@start
    broadcast use {group_run, lemma_run_push, lemma_after_content};
//@forvar 0 it
//@loop 0
    invariant
        it.seq() == ast@, all_ok(ast@), at(emitter.s) == St::C(open(Stk::Nil, N_MATH())), emitter.env_ok(),
//@endfn
//@readlits
} // verus!
fn main() {}
