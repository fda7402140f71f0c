// Line breaks and indentation: the output as text and breaks (crates/mathml-renderer/src/ast.rs, table.rs, attribute.rs; crates/math-core/src/lib.rs)
//
// The real code is run with an output that keeps texts and breaks apart, and with indentation levels that carry the
// level of two runs: the one without pretty printing (`a`) and any other (`b`). Nothing else is known about a level.
//@subst core::fmt::Result ==> Result<(), FmtError>
//@subst core::fmt::Error ==> FmtError
//@include prelude.vx
//@include levels.vx
use core::num::NonZeroU16;
//@writer o_
//@constlits
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst Cow<'static, str> ==> VxStr
//@subst id_prefix: String ==> id_prefix: VxStr
//@subst String ==> VxOut
//@subst <&str>::from ==> vx_name
//@subst <&'static str>::from ==> vx_name
//@subst cfg!(debug_assertions) ==> false
//@subst num_rows.get() ==> vx_nz_get(&num_rows)
//@subst base_indent: usize ==> base_indent: VxInd
//@subst child_indent: usize ==> child_indent: VxInd
//@subst child_indent2: usize ==> child_indent2: VxInd
//@subst child_indent3: usize ==> child_indent3: VxInd
//@subst indent_num: usize ==> indent_num: VxInd
//@subst if base_indent > 0 { base_indent.saturating_add(1) } else { 0 } ==> vx_deeper(base_indent, base_indent)
//@subst if base_indent > 0 { child_indent.saturating_add(1) } else { 0 } ==> vx_deeper(base_indent, child_indent)
//@subst if base_indent > 0 { child_indent2.saturating_add(1) } else { 0 } ==> vx_deeper(base_indent, child_indent2)
//@subst percent_encode(link_target.as_bytes(), FRAGMENT_SAFE) ==> vx_shown(link_target)
//@subst percent_encode(label.as_bytes(), FRAGMENT_SAFE) ==> vx_shown(label)
// ---- specification -------------------------------------------------------------------------------
pub enum Piece { Text(Seq<char>), Break { on: bool, n: nat, u: Indentation } }
/// the output without pretty printing: the texts
pub open spec fn plain_text(p: Seq<Piece>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { seq![] } else { plain_text(p.drop_last()) + match p.last() { Piece::Text(t) => t, _ => seq![] } }
}
/// the output: the texts, and for every break the new line and its indentation
pub open spec fn whole_text(p: Seq<Piece>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { seq![] } else { whole_text(p.drop_last()) + match p.last() { Piece::Text(t) => t, Piece::Break { on, n, u } => if on { seq!['\n'] + units(u, n) } else { seq![] } } }
}
/// a break is still to be followed by text
#[verifier::opaque]
pub open spec fn pending(p: Seq<Piece>) -> bool decreases p.len() {
    p.len() > 0 && match p.last() { Piece::Text(t) => t.len() == 0 && pending(p.drop_last()), _ => true }
}
/// the text so far is empty or ends with a tag
#[verifier::opaque]
pub open spec fn edge(p: Seq<Piece>) -> bool decreases p.len() {
    p.len() == 0 || match p.last() { Piece::Text(t) => if t.len() == 0 { edge(p.drop_last()) } else { t.last() == '>' }, _ => edge(p.drop_last()) }
}
/// every break is between tags
#[verifier::opaque]
pub open spec fn between(p: Seq<Piece>) -> bool decreases p.len() {
    p.len() == 0 || (between(p.drop_last()) && match p.last() { Piece::Text(t) => t.len() == 0 || !pending(p.drop_last()) || t[0] == '<', _ => edge(p.drop_last()) })
}
/// the breaks from `k` on are at level `d` or deeper, or do nothing at level 0
#[verifier::opaque]
pub open spec fn levels(p: Seq<Piece>, k: int, d: nat, u: Indentation) -> bool {
    forall|i: int| k <= i < p.len() ==> (#[trigger] p[i] matches Piece::Break { on, n, u: v } ==> v == u && (d > 0 ==> on && n >= d) && (d == 0 ==> !on))
}
#[verifier::opaque]
pub open spec fn grown(p: Seq<Piece>, q: Seq<Piece>, d: nat, u: Indentation) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p && levels(q, p.len() as int, d, u) }
pub broadcast proof fn lemma_text(p: Seq<Piece>, t: Seq<char>)
    ensures
        #![trigger p.push(Piece::Text(t))]
        pending(p.push(Piece::Text(t))) == (t.len() == 0 && pending(p)),
        edge(p.push(Piece::Text(t))) == (if t.len() == 0 { edge(p) } else { t.last() == '>' }),
        between(p.push(Piece::Text(t))) == (between(p) && (t.len() == 0 || !pending(p) || t[0] == '<')),
{ reveal_with_fuel(pending, 2); reveal_with_fuel(edge, 2); reveal_with_fuel(between, 2); assert(p.push(Piece::Text(t)).drop_last() =~= p); }
pub broadcast proof fn lemma_break(p: Seq<Piece>, on: bool, n: nat, u: Indentation)
    ensures
        #![trigger p.push(Piece::Break { on, n, u })]
        pending(p.push(Piece::Break { on, n, u })),
        edge(p.push(Piece::Break { on, n, u })) == edge(p),
        between(p.push(Piece::Break { on, n, u })) == (between(p) && edge(p)),
{ reveal_with_fuel(pending, 2); reveal_with_fuel(edge, 2); reveal_with_fuel(between, 2); assert(p.push(Piece::Break { on, n, u }).drop_last() =~= p); }
pub broadcast proof fn lemma_grown_text(p: Seq<Piece>, q: Seq<Piece>, t: Seq<char>, d: nat, u: Indentation)
    requires #[trigger] grown(p, q, d, u)
    ensures grown(p, #[trigger] q.push(Piece::Text(t)), d, u)
{ reveal(grown); reveal(levels); assert(q.push(Piece::Text(t)).take(p.len() as int) =~= q.take(p.len() as int)); }
pub broadcast proof fn lemma_grown_break(p: Seq<Piece>, q: Seq<Piece>, on: bool, n: nat, d: nat, u: Indentation)
    requires #[trigger] grown(p, q, d, u), d > 0 ==> on && n >= d, d == 0 ==> !on
    ensures grown(p, #[trigger] q.push(Piece::Break { on, n, u }), d, u)
{ reveal(grown); reveal(levels); assert(q.push(Piece::Break { on, n, u }).take(p.len() as int) =~= q.take(p.len() as int)); }
pub broadcast proof fn lemma_grown_trans(p: Seq<Piece>, q: Seq<Piece>, r: Seq<Piece>, d: nat, e: nat, u: Indentation)
    requires #[trigger] grown(p, q, d, u), #[trigger] grown(q, r, e, u), e >= d, d == 0 ==> e == 0
    ensures grown(p, r, d, u)
{
    reveal(grown); reveal(levels);
    assert(r.take(p.len() as int) =~= r.take(q.len() as int).take(p.len() as int));
    assert forall|i: int| p.len() <= i < r.len() implies (#[trigger] r[i] matches Piece::Break { on, n, u: v } ==> v == u && (d > 0 ==> on && n >= d) && (d == 0 ==> !on)) by {
        if i < q.len() { assert(r.take(q.len() as int)[i] == r[i]); assert(q[i] == r[i]); }
    }
}
pub broadcast proof fn lemma_grown_refl(p: Seq<Piece>, d: nat, u: Indentation)
    ensures #[trigger] grown(p, p, d, u)
{ reveal(grown); reveal(levels); assert(p.take(p.len() as int) =~= p); }
/// only text is written
#[verifier::opaque]
pub open spec fn only_text(p: Seq<Piece>, q: Seq<Piece>) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p && forall|i: int| p.len() <= i < q.len() ==> #[trigger] q[i] is Text }
pub broadcast proof fn lemma_only(p: Seq<Piece>, q: Seq<Piece>, t: Seq<char>)
    requires #[trigger] only_text(p, q)
    ensures only_text(p, #[trigger] q.push(Piece::Text(t)))
{ reveal(only_text); assert(q.push(Piece::Text(t)).take(p.len() as int) =~= q.take(p.len() as int)); }
pub broadcast proof fn lemma_only_trans(p: Seq<Piece>, q: Seq<Piece>, r: Seq<Piece>)
    requires #[trigger] only_text(p, q), #[trigger] only_text(q, r)
    ensures only_text(p, r)
{
    reveal(only_text);
    assert(r.take(p.len() as int) =~= r.take(q.len() as int).take(p.len() as int));
    assert forall|i: int| p.len() <= i < r.len() implies #[trigger] r[i] is Text by { if i < q.len() { assert(r.take(q.len() as int)[i] == r[i]); assert(q[i] == r[i]); } }
}
pub proof fn lemma_only_refl(p: Seq<Piece>) ensures only_text(p, p) { reveal(only_text); assert(p.take(p.len() as int) =~= p); }
pub broadcast proof fn lemma_grown_only(p: Seq<Piece>, q: Seq<Piece>, r: Seq<Piece>, d: nat, u: Indentation)
    requires #[trigger] grown(p, q, d, u), #[trigger] only_text(q, r)
    ensures grown(p, r, d, u)
{
    reveal(grown); reveal(levels); reveal(only_text);
    assert(r.take(p.len() as int) =~= r.take(q.len() as int).take(p.len() as int));
    assert forall|i: int| p.len() <= i < r.len() implies (#[trigger] r[i] matches Piece::Break { on, n, u: v } ==> v == u && (d > 0 ==> on && n >= d) && (d == 0 ==> !on)) by {
        if i < q.len() { assert(r.take(q.len() as int)[i] == r[i]); assert(q[i] == r[i]); }
    }
}
pub broadcast group group_out { lemma_only, lemma_only_trans, lemma_grown_only, lemma_text, lemma_break, lemma_grown_text, lemma_grown_break, lemma_grown_trans, lemma_grown_refl }
/// every break does something, or none does
#[verifier::opaque]
pub open spec fn uniform(p: Seq<Piece>, on: bool, u: Indentation) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] matches Piece::Break { on: o, n, u: v } ==> o == on && v == u) }
pub broadcast proof fn lemma_uniform_text(p: Seq<Piece>, t: Seq<char>, on: bool, u: Indentation)
    requires #[trigger] uniform(p, on, u)
    ensures uniform(#[trigger] p.push(Piece::Text(t)), on, u)
{ reveal(uniform); }
pub broadcast proof fn lemma_uniform_break(p: Seq<Piece>, n: nat, on: bool, u: Indentation)
    requires #[trigger] uniform(p, on, u)
    ensures uniform(#[trigger] p.push(Piece::Break { on, n, u }), on, u)
{ reveal(uniform); }
pub broadcast proof fn lemma_uniform_grown(p: Seq<Piece>, q: Seq<Piece>, d: nat, on: bool, u: Indentation)
    requires #[trigger] uniform(p, on, u), #[trigger] grown(p, q, d, u), on == (d > 0)
    ensures uniform(q, on, u)
{
    reveal(uniform); reveal(grown); reveal(levels);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i] matches Piece::Break { on: o, n, u: v } ==> o == on && v == u) by {
        if i < p.len() { assert(q.take(p.len() as int)[i] == q[i]); assert(p[i] == q[i]); }
    }
}
/// Without its breaks the output is the texts.
pub proof fn lemma_without(p: Seq<Piece>, u: Indentation)
    requires uniform(p, false, u)
    ensures whole_text(p) == plain_text(p)
    decreases p.len()
{
    reveal(uniform);
    if p.len() > 0 {
        assert(uniform(p.drop_last(), false, u)) by { assert forall|i: int| 0 <= i < p.len() - 1 implies (#[trigger] p.drop_last()[i] matches Piece::Break { on, n, u: v } ==> v == u && !on) by { assert(p[i] == p.drop_last()[i]); } }
        lemma_without(p.drop_last(), u);
        assert(p.last() == p[p.len() - 1]);
    }
}
pub struct VxOut { pub p: Ghost<Seq<Piece>> }
pub struct VxStr { x: () }
impl VxDisp for VxStr { uninterp spec fn vx_text(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_text_of(s: &VxStr) -> &str { unimplemented!() }
/// the level in the run without pretty printing, and in the other
#[derive(Clone, Copy)]
pub struct VxInd { pub a: Ghost<nat>, pub b: Ghost<nat> }
pub open spec fn deeper(base: nat, d: nat) -> nat { if base > 0 { if d < usize::MAX { d + 1 } else { d } } else { 0 } }
#[verifier::external_body]
pub fn vx_deeper(base: VxInd, d: VxInd) -> (r: VxInd) ensures r.a@ == deeper(base.a@, d.a@), r.b@ == deeper(base.b@, d.b@) { unimplemented!() }
/// a level that is only used with pretty printing
#[verifier::external_body]
pub fn vx_level(pretty: bool, n: usize) -> (r: VxInd) ensures r.a@ == 0, r.b@ == (if pretty { n as nat } else { 0 }) { unimplemented!() }
impl VxOut {
    pub fn new() -> (r: VxOut) ensures r.p@ == Seq::<Piece>::empty() { VxOut { p: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn o_lit(&mut self, s: &str) ensures final(self).p@ == old(self).p@.push(Piece::Text(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn o_disp<T: VxDisp>(&mut self, x: &T) ensures final(self).p@ == old(self).p@.push(Piece::Text(x.vx_text())) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &str) ensures final(self).p@ == old(self).p@.push(Piece::Text(s@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self).p@ == old(self).p@.push(Piece::Text(seq![c])) { unimplemented!() }
}
/// what `new_line_and_indent` does (proved in fmt.rs): nothing at level 0, which is the level without pretty printing
#[verifier::external_body]
pub fn new_line_and_indent(s: &mut VxOut, indent_num: VxInd, indentation: Indentation)
    requires indent_num.a@ == 0
    ensures final(s).p@ == old(s).p@.push(Piece::Break { on: indent_num.b@ > 0, n: indent_num.b@, u: indentation })
{ unimplemented!() }
/// some text of a value
pub struct VxShown { x: () }
impl VxDisp for VxShown { uninterp spec fn vx_text(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_shown<T>(x: T) -> (r: VxShown) { unimplemented!() }
#[verifier::external_body]
pub fn vx_name<T>(x: T) -> (r: &'static str) { unimplemented!() }
pub uninterp spec fn shown<T>(x: T) -> Seq<char>;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SuperChar { x: u32 }
impl SuperChar { #[verifier::external_body] pub fn try_as_char(self) -> Option<char> { unimplemented!() } }
impl VxDisp for SuperChar { uninterp spec fn vx_text(&self) -> Seq<char>; }
#[derive(Clone, Copy)]
pub struct MathMLOperator(pub SuperChar);
impl VxDisp for MathMLOperator { uninterp spec fn vx_text(&self) -> Seq<char>; }
pub struct EscapeHtml<'a>(pub &'a str);
impl<'a> VxDisp for EscapeHtml<'a> { uninterp spec fn vx_text(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn append_u8_as_hex(s: &mut VxOut, b: u8) ensures final(s).p@ == old(s).p@.push(Piece::Text(shown(b))) { unimplemented!() }
#[verifier::external_body]
pub fn escape_html_content(s: &mut VxOut, t: &str) ensures final(s).p@ == old(s).p@.push(Piece::Text(shown(t@))) { unimplemented!() }

//@file crates/mathml-renderer/src/length.rs
//@extract enum LengthUnit #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct LengthValue #[derive(Clone, Copy)]
//@extract struct Length #[derive(Clone, Copy)]
//@extract struct LengthSet #[derive(Clone, Copy)]
impl Length {
    #[verifier::external_body]
    pub fn push_to_string(&self, s: &mut VxOut) ensures final(s).p@ == old(s).p@.push(Piece::Text(shown(*self))) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_parts(value: LengthValue, unit: LengthUnit) -> Option<Length> { unimplemented!() }
    #[verifier::external_body]
    pub fn is_negative(self) -> bool { unimplemented!() }
}
/// the lengths that are not zero, at most three
pub struct Iter { pub left: Ghost<nat> }
impl Iter {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Length>) ensures r is Some ==> final(self).left@ < old(self).left@, r is None ==> final(self).left@ == old(self).left@ { unimplemented!() }
}
impl LengthSet { #[verifier::external_body] pub fn iter(self) -> (r: Iter) { unimplemented!() } }

//@file crates/mathml-renderer/src/table.rs
//@extract enum ColumnAlignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LineType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum ColumnSpecEntry #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract type ColumnSpec
//@extract struct ArraySpec
//@extract enum Alignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct RowLabelInfo
//@extract struct EquationTag #[derive(Clone, Copy)]
//@extract enum AlignmentType
//@extract struct ColumnGenerator
//@extract static DEFAULT_COLUMN_SPEC
//@extract const MTD_OPEN_STYLE
//@extract const MTD_CLOSE_STYLE
//@extract const LEFT_ALIGN
//@extract const RIGHT_ALIGN
//@extract const PADDING_RIGHT_ZERO
//@extract const PADDING_LEFT_ZERO
//@extract const PADDING_TOP_BOTTOM_ZERO
//@extract const BORDER_RIGHT_SOLID
//@extract const BORDER_RIGHT_DASHED
//@extract const BORDER_TOP_SOLID
//@extract const BORDER_TOP_DASHED
//@extract const SIMPLE_CENTERED
#[verifier::external_body]
pub fn vx_nz_get(n: &NonZeroU16) -> (r: u16) ensures r > 0 { n.get() }
/// a place between tags
pub open spec fn ready(s: VxOut) -> bool { between(s.p@) && edge(s.p@) }
impl<'arena> ColumnGenerator<'arena> {
//@fn ColumnGenerator::new_predefined
//@ret r
//@spec
    ensures r.fresh()
//@endfn
//@fn ColumnGenerator::new_custom
//@ret r
//@spec
    ensures r.fresh()
//@endfn
//@fn ColumnGenerator::new_multline
//@ret r
//@spec
    ensures r.fresh()
//@endfn
    pub open spec fn fresh(self) -> bool { self.column_idx == 0 && self.row_idx == 0 }
    pub open spec fn width(self) -> int { match self.typ { AlignmentType::Custom(a) => a.column_spec@.len() as int, _ => 0 } }
    /// at most `n` columns and rows so far
    pub open spec fn bounded(self, n: int) -> bool { self.row_idx <= n && self.column_idx <= n + self.width() }
    pub open spec fn more(self) -> bool { self.row_idx < usize::MAX && self.column_idx < usize::MAX && self.width() < usize::MAX }
//@fn ColumnGenerator::reset_to_new_row
//@spec
    requires old(self).row_idx < usize::MAX
    ensures final(self).column_idx == 0, final(self).row_idx == old(self).row_idx + 1, final(self).typ == old(self).typ
//@endfn
//@fn ColumnGenerator::set_row_border_top
//@spec
    ensures final(self).column_idx == old(self).column_idx, final(self).row_idx == old(self).row_idx, final(self).typ == old(self).typ
//@endfn
//@fn ColumnGenerator::write_next_mtd
//@ret r
//@spec
    requires ready(*old(s)), old(self).more(), indent_num.a@ == 0
    ensures r.is_ok(), ready(*final(s)), !pending(final(s).p@), grown(old(s).p@, final(s).p@, indent_num.b@, indentation),
        final(self).typ == old(self).typ, final(self).row_idx == old(self).row_idx,
        final(self).column_idx <= old(self).column_idx + 1 || final(self).column_idx <= old(self).width() + 1,
//@start
    broadcast use group_out;
    let ghost g = *self;
    let ghost p0 = s.p@;
    proof { lemma_grown_refl(p0, indent_num.b@, indentation); }
//@loop 0
    invariant
        ready(*s), grown(p0, s.p@, indent_num.b@, indentation), indent_num.a@ == 0, g.typ == AlignmentType::Custom(array_spec), self.typ == g.typ, self.row_idx == g.row_idx,
        array_spec.column_spec@.len() < usize::MAX,
        g.column_idx < self.column_idx, self.column_idx <= g.column_idx + 1 || self.column_idx <= array_spec.column_spec@.len() + 1,
        column_spec is OnlyLine ==> self.column_idx <= array_spec.column_spec@.len(),
    ensures !(column_spec is OnlyLine)
    decreases array_spec.column_spec@.len() + 1 - self.column_idx
//@loopstart 0
    broadcast use group_out;
//@afterloop 0
    broadcast use group_out;
//@endfn
}
//@fn write_simple_mtd
//@ret r
//@vis pub
//@spec
    requires between(old(s).p@)
    ensures r.is_ok(), ready(*final(s)), !pending(final(s).p@), only_text(old(s).p@, final(s).p@)
//@start
    broadcast use group_out;
    proof { lemma_only_refl(s.p@); }
//@endfn
//@file crates/mathml-renderer/src/attribute.rs
//@bitflags OpAttrs #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@bitflags Notation #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LetterAttr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Size #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum FracAttr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum MathSpacing #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum HtmlTextStyle #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum HtmlTextSize #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct RowAttrs #[derive(Clone, Copy)]
impl OpAttrs {
//@fn OpAttrs::write_to
//@spec
    requires between(old(s).p@), !pending(old(s).p@)
    ensures between(final(s).p@), !pending(final(s).p@), only_text(old(s).p@, final(s).p@)
//@start
    broadcast use group_out;
    proof { lemma_only_refl(s.p@); }
//@endfn
}
//@file crates/mathml-renderer/src/ast.rs
//@bitflags InnerWarnings #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct Warnings #[derive(Clone, Copy)]
//@extract struct AHref #[derive(Clone, Copy)]
//@extract struct MultiscriptPair #[derive(Clone, Copy)]
//@extract enum Node #[allow(inconsistent_fields)]
//@extract struct CssClassNames
//@extract enum NumberColums #[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VxLabels;
impl VxLabels {
    #[verifier::external_body]
    pub fn get(&self, label: &str) -> (r: Option<&str>) { unimplemented!() }
}
//@extract struct Emitter
//@fn emit_operator_attributes
//@ret r
//@vis pub
//@spec
    requires between(old(s).p@)
    ensures r.is_ok(), between(final(s).p@), !pending(final(s).p@), only_text(old(s).p@, final(s).p@)
//@start
    broadcast use group_out;
    proof { lemma_only_refl(s.p@); }
//@endfn
impl NumberColums {
//@fn NumberColums::dummy_column_opening
//@ret r
//@spec
    requires ready(*old(s)), child_indent2.a@ == 0
    ensures r.is_ok(), between(final(s).p@), !pending(final(s).p@), grown(old(s).p@, final(s).p@, child_indent2.b@, indentation)
//@start
    broadcast use group_out;
    proof { lemma_grown_refl(s.p@, child_indent2.b@, indentation); }
//@endfn
//@fn NumberColums::initial_dummy_column
//@ret r
//@spec
    requires ready(*old(s)), child_indent2.a@ == 0
    ensures r.is_ok(), ready(*final(s)), !pending(final(s).p@), grown(old(s).p@, final(s).p@, child_indent2.b@, indentation)
//@start
    broadcast use group_out;
    proof { lemma_grown_refl(s.p@, child_indent2.b@, indentation); }
//@endfn
}
//@fn write_equation_num
//@ret r
//@vis pub
//@spec
    requires ready(*old(s)), child_indent2.a@ == 0, child_indent3.a@ == 0, child_indent3.b@ >= child_indent2.b@, child_indent2.b@ == 0 ==> child_indent3.b@ == 0
    ensures r.is_ok(), ready(*final(s)), !pending(final(s).p@), grown(old(s).p@, final(s).p@, child_indent2.b@, indentation)
//@start
    broadcast use group_out;
    proof { lemma_grown_refl(s.p@, child_indent2.b@, indentation); }
//@endfn
/// slices are at most `isize::MAX` bytes long, and a reference has eight
#[verifier::external_body]
pub proof fn axiom_slices(c: &[&Node], a: &[ColumnSpecEntry]) ensures c@.len() <= isize::MAX / 8, a@.len() <= isize::MAX { }
impl Warnings {
//@fn Warnings::new
//@ret r
//@endfn
//@fn Warnings::set_undefined_references
//@endfn
//@fn Warnings::set_unknown_commands
//@endfn
}
impl<'state> Emitter<'state> {
    pub open spec fn same(self, o: Self) -> bool { self.css_classes == o.css_classes && self.id_prefix == o.id_prefix && self.indentation == o.indentation && self.label_map == o.label_map }
//@fn Emitter::new
//@ret r
//@spec
    ensures r.s == s, r.css_classes == css_classes, r.id_prefix == id_prefix, r.indentation == indentation, r.label_map == label_map
//@endfn
//@fn Emitter::into_string
//@ret r
//@spec
    ensures r == self.s
//@endfn
//@fn Emitter::warnings
//@ret r
//@endfn
//@fn Emitter::emit
//@ret r
//@attr #[verifier::spinoff_prover]
//@subst for voffset_length in voffset_iter ==> while let Some(voffset_length) = voffset_iter.next()
//@subst for _ in voffset.iter().skip(1) ==> let mut vx_rest = voffset.iter(); vx_rest.next(); while let Some(_) = vx_rest.next()
//@spec
    requires ready(old(self).s), base_indent.a@ == 0
    ensures r.is_ok(), ready(final(self).s), grown(old(self).s.p@, final(self).s.p@, base_indent.b@, old(self).indentation), final(self).same(*old(self))
    decreases *node, 1nat
//@start
    broadcast use group_out;
    proof { lemma_grown_refl(self.s.p@, base_indent.b@, self.indentation); }
//@outlineattr #[verifier::spinoff_prover]
//@outline node: &Node<'_>, vx_node: &Node<'_>, base_indent: VxInd, child_indent: VxInd
    requires node == vx_node, ready(old(self).s), pending(old(self).s.p@), base_indent.a@ == 0, child_indent.a@ == 0, child_indent.b@ == deeper(base_indent.b@, base_indent.b@), VX_CASE
    ensures r.is_ok(), ready(final(self).s), grown(old(self).s.p@, final(self).s.p@, base_indent.b@, old(self).indentation), final(self).same(*old(self))
    decreases *vx_node, 0nat
//@outlinestart
    broadcast use group_out;
    let ghost e0 = *self;
    let ghost d = base_indent.b@;
    proof { lemma_grown_refl(e0.s.p@, d, e0.indentation); }
    let ghost node0 = node;
    proof {
        match *node0 {
            Node::Row { nodes, attrs } => { assert(decreases_to!(*node0 => nodes)); assert(decreases_to!(nodes => nodes@)); }
            _ => {}
        }
    }
//@forvar 0 it
//@loop 0
    invariant
        node == vx_node, forall|i: int| 0 <= i < it.seq().len() ==> (decreases_to!(*vx_node => *(#[trigger] it.seq()[i]))),
        ready(self.s), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation), child_indent.a@ == 0, child_indent.b@ >= d, d == 0 ==> child_indent.b@ == 0,
//@loopstart 0
    broadcast use group_out;
//@forvar 1 jt
//@loop 1
    invariant
        node == vx_node, forall|i: int| 0 <= i < jt.seq().len() ==> (decreases_to!(*vx_node => *(#[trigger] jt.seq()[i]))),
        ready(self.s), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation), child_indent.a@ == 0, child_indent.b@ >= d, d == 0 ==> child_indent.b@ == 0,
//@loopstart 1
    broadcast use group_out;
//@forvar 2 rt
//@loop 2
    invariant
        node0 == vx_node, forall|i: int| 0 <= i < rt.seq().len() ==> (decreases_to!(*vx_node => **(#[trigger] rt.seq()[i]))),
        ready(self.s), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation), child_indent.a@ == 0, child_indent.b@ >= d, d == 0 ==> child_indent.b@ == 0,
//@loopstart 2
    broadcast use group_out;
//@loop 3
    invariant between(self.s.p@), !pending(self.s.p@), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation),
    decreases voffset_iter.left@
//@loopstart 3
    broadcast use group_out;
//@loop 4
    invariant ready(self.s), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation),
    decreases vx_rest.left@
//@loopstart 4
    broadcast use group_out;
//@endfn
//@fn Emitter::emit_table
//@ret r
//@attr #[verifier::spinoff_prover]
//@spec
    requires ready(old(self).s), base_indent.a@ == 0, child_indent.a@ == 0, child_indent.b@ == deeper(base_indent.b@, base_indent.b@), col_gen.fresh()
    ensures r.is_ok(), ready(final(self).s), grown(old(self).s.p@, final(self).s.p@, base_indent.b@, old(self).indentation), final(self).same(*old(self))
    decreases content@, 2nat
//@start
    broadcast use group_out;
    let ghost e0 = *self;
    let ghost g0 = col_gen;
    let ghost d = base_indent.b@;
    proof { lemma_grown_refl(e0.s.p@, d, e0.indentation); match col_gen.typ { AlignmentType::Custom(a) => axiom_slices(content, a.column_spec), _ => axiom_slices(content, &[]) } }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == content@.len(), forall|i: int| 0 <= i < content@.len() ==> *#[trigger] it.seq()[i] == content@[i], content@.len() <= isize::MAX / 8,
        ready(self.s), self.same(e0), grown(e0.s.p@, self.s.p@, d, e0.indentation),
        child_indent.a@ == 0, child_indent2.a@ == 0, child_indent3.a@ == 0, child_indent.b@ >= d, child_indent2.b@ >= d, child_indent3.b@ >= child_indent2.b@, d == 0 ==> child_indent.b@ == 0 && child_indent2.b@ == 0 && child_indent3.b@ == 0, d > 0 ==> child_indent2.b@ > 0,
        col_gen.typ == g0.typ, col_gen.bounded(it.index@ + 2), g0.width() <= isize::MAX,
//@loopstart 0
    broadcast use group_out;
    proof { assert(content@[it.index@ as int] == *node); }
//@endfn
}
// ---- the document ----
//@file crates/math-core/src/lib.rs
//@extract enum MathDisplay #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum PrettyPrint #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct EmitterConfig
//@extract struct ConvertResult
pub struct Arena;
#[verifier::external_body]
pub fn node_vec_to_node<'a>(arena: &'a Arena, nodes: &[&'a Node<'a>], wrap: bool) -> (r: &'a Node<'a>) { unimplemented!() }
#[verifier::external_body]
pub fn vx_take(s: &mut VxOut) -> (r: VxOut) ensures r == *old(s), final(s).p@ == Seq::<Piece>::empty() { unimplemented!() }
/// a line break that is only written with pretty printing
#[verifier::external_body]
pub fn vx_line(s: &mut VxOut, pretty: bool, u: Indentation) ensures final(s).p@ == old(s).p@.push(Piece::Break { on: pretty, n: 0, u }) { unimplemented!() }
pub open spec fn pretty(f: EmitterConfig, d: MathDisplay) -> bool { f.pretty_print is Always || (f.pretty_print is Auto && d is Block) }
proof fn lemma_start(on: bool, u: Indentation)
    ensures between(Seq::<Piece>::empty()), edge(Seq::<Piece>::empty()), !pending(Seq::<Piece>::empty()), uniform(Seq::<Piece>::empty(), on, u)
{ reveal_with_fuel(pending, 1); reveal_with_fuel(edge, 1); reveal_with_fuel(between, 1); reveal(uniform); }
//@subst parser::node_vec_to_node ==> node_vec_to_node
//@subst html_utils::escape_html_content ==> escape_html_content
//@subst core::mem::take(&mut output) ==> vx_take(&mut output)
//@subst & flags.id_prefix ==> vx_text_of(&flags.id_prefix)
//@subst if pretty_print { 1 } else { 0 } ==> vx_level(pretty_print, 1)
//@subst if pretty_print { 2 } else { 0 } ==> vx_level(pretty_print, 2)
//@subst if pretty_print { output.push('\n'); } ==> vx_line(&mut output, pretty_print, flags.indentation);
//@fn emit
//@ret r
//@vis pub
//@spec
    ensures ({
        let (p, on, u) = (r.mathml.p@, pretty(*flags, display), flags.indentation);
        between(p) && edge(p) && !pending(p) && uniform(p, on, u) && (!on ==> whole_text(p) == plain_text(p))
    })
//@start
    broadcast use {group_out, lemma_uniform_text, lemma_uniform_break, lemma_uniform_grown};
    let ghost (on, u) = (pretty(*flags, display), flags.indentation);
    proof { lemma_start(on, u); }
//@forvar 0 it
//@loop 0
    invariant
        it.seq() == ast@, ready(emitter.s), uniform(emitter.s.p@, on, u), emitter.indentation == u, base_indent.a@ == 0, on == (base_indent.b@ > 0),
//@loopstart 0
    broadcast use {group_out, lemma_uniform_grown};
//@end
    proof { if !on { lemma_without(vx_ret.mathml.p@, u); } }
//@endfn
} // verus!
fn main() {}
