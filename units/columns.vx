// The columns of a table (crates/mathml-renderer/src/table.rs)
//@file crates/mathml-renderer/src/table.rs
//@extract enum ColumnAlignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LineType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum ColumnSpecEntry #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract type ColumnSpec
//@extract struct ArraySpec
//@extract enum Alignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum AlignmentType
//@extract struct ColumnGenerator
//@extract static DEFAULT_COLUMN_SPEC
//@extract const MTD_OPEN_STYLE
//@extract const MTD_CLOSE_STYLE
//@extract const LEFT_ALIGN
//@extract const RIGHT_ALIGN
//@extract const PADDING_RIGHT_ZERO
//@extract const PADDING_LEFT_ZERO
//@extract const PADDING_TOP_BOTTOM_ZERO
//@extract const BORDER_RIGHT_SOLID
//@extract const BORDER_RIGHT_DASHED
//@extract const BORDER_TOP_SOLID
//@extract const BORDER_TOP_DASHED
//@extract const SIMPLE_CENTERED

#[verifier::external_body]
pub fn vx_nz_get(n: &NonZeroU16) -> (r: u16) ensures r == nz(*n), r > 0 { n.get() }
pub uninterp spec fn nz(n: NonZeroU16) -> u16;

// ---- specification -------------------------------------------------------------------------------
/// the style of a cell, in the order the declarations are written
pub open spec fn top_css(t: Option<LineType>) -> Seq<char> {
    match t { None => seq![], Some(LineType::Solid) => "border-top: 0.05em solid currentcolor;"@, Some(LineType::Dashed) => "border-top: 0.05em dashed currentcolor;"@ }
}
pub open spec fn right_css(t: Option<LineType>) -> Seq<char> {
    match t { None => seq![], Some(LineType::Solid) => "border-right: 0.05em solid currentcolor;"@, Some(LineType::Dashed) => "border-right: 0.05em dashed currentcolor;"@ }
}
pub open spec fn align_css(a: ColumnAlignment) -> Seq<char> {
    match a {
        ColumnAlignment::LeftJustified => "text-align: left;justify-items: start;"@,
        ColumnAlignment::Centered => seq![],
        ColumnAlignment::RightJustified => "text-align: right;justify-items: end;"@,
    }
}
pub open spec fn sub_css(is_sub: bool) -> Seq<char> { if is_sub { "padding-top: 0;padding-bottom: 0;"@ } else { seq![] } }
/// an opening tag with that style; no attribute when there is nothing to say
pub open spec fn mtd(style: Seq<char>) -> Seq<char> {
    if style.len() == 0 { "<mtd>"@ } else { "<mtd style=\""@ + style + "\">"@ }
}
pub open spec fn entry_at(a: &ArraySpec, i: int) -> ColumnSpecEntry {
    if 0 <= i < a.column_spec@.len() { a.column_spec@[i] } else { ColumnSpecEntry::WithContent { alignment: ColumnAlignment::Centered, border_right: None } }
}
/// From column `i` on: the columns that are only a line, each as an empty cell, then the cell with content.
#[verifier::opaque]
pub open spec fn custom(a: &ArraySpec, top: Option<LineType>, i: int, br: Seq<char>) -> Seq<char>
    decreases a.column_spec@.len() - i
{
    match entry_at(a, i) {
        ColumnSpecEntry::OnlyLine(l) => if i < a.column_spec@.len() {
            line_cell(a, top, l) + br + custom(a, top, i + 1, br)
        } else { seq![] },
        ColumnSpecEntry::WithContent { alignment, border_right } => mtd(top_css(top) + align_css(alignment) + right_css(border_right) + sub_css(a.is_sub)),
    }
}
pub open spec fn line_cell(a: &ArraySpec, top: Option<LineType>, l: LineType) -> Seq<char> {
    "<mtd style=\""@ + (top_css(top) + right_css(Some(l)) + sub_css(a.is_sub) + "padding-left: 0.1em;padding-right: 0.1em;"@) + "\"></mtd>"@
}
/// The column after the next one with content.
#[verifier::opaque]
pub open spec fn custom_next(a: &ArraySpec, i: int) -> int
    decreases a.column_spec@.len() - i
{
    if i < a.column_spec@.len() && entry_at(a, i) is OnlyLine { custom_next(a, i + 1) } else { i + 1 }
}
pub open spec fn predefined(al: Alignment, col: int) -> Seq<char> {
    match al {
        Alignment::Cases => "text-align: left;justify-items: start;"@ + "padding-right: 0;"@ + (if col % 2 == 0 { seq![] } else { "padding-left:1em;"@ }),
        Alignment::Centered => seq![],
        Alignment::Alternating => if col % 2 == 0 { "text-align: right;justify-items: end;"@ + "padding-right: 0;"@ } else { "text-align: left;justify-items: start;"@ + "padding-left: 0;"@ },
    }
}
pub open spec fn multline(row: int, rows: int) -> Seq<char> {
    if row == 0 { "text-align: left;justify-items: start;"@ } else if row == rows - 1 { "text-align: right;justify-items: end;"@ } else { seq![] }
}
pub open spec fn cell_at(typ: AlignmentType, top: Option<LineType>, col: int, row: int, br: Seq<char>) -> Seq<char> {
    match typ {
        AlignmentType::Predefined(al) => mtd(top_css(top) + predefined(al, col)),
        AlignmentType::Custom(a) => custom(a, top, col, br),
        AlignmentType::MultLine(n) => mtd(top_css(top) + multline(row, nz(n) as int)),
    }
}
pub open spec fn cell(g: &ColumnGenerator, br: Seq<char>) -> Seq<char> { cell_at(g.typ, g.row_border_top, g.column_idx as int, g.row_idx as int, br) }
pub open spec fn after(typ: AlignmentType, col: int) -> int { match typ { AlignmentType::Custom(a) => custom_next(a, col), _ => col + 1 } }
pub open spec fn next_column(g: &ColumnGenerator) -> int {
    after(g.typ, g.column_idx as int)
}
pub open spec fn in_range(g: &ColumnGenerator) -> bool {
    g.column_idx < usize::MAX && g.row_idx < usize::MAX && match g.typ { AlignmentType::Custom(a) => a.column_spec@.len() < usize::MAX, _ => true }
}

pub proof fn lemma_css_nonempty()
    ensures
        "text-align: left;justify-items: start;"@.len() > 0,
        "text-align: right;justify-items: end;"@.len() > 0,
        "border-top: 0.05em solid currentcolor;"@.len() > 0,
        "border-top: 0.05em dashed currentcolor;"@.len() > 0,
        "border-right: 0.05em solid currentcolor;"@.len() > 0,
        "border-right: 0.05em dashed currentcolor;"@.len() > 0,
        "padding-top: 0;padding-bottom: 0;"@.len() > 0,
        ""@ == Seq::<char>::empty(),
{
    reveal_strlit("text-align: left;justify-items: start;"); reveal_strlit("text-align: right;justify-items: end;");
    reveal_strlit("border-top: 0.05em solid currentcolor;"); reveal_strlit("border-top: 0.05em dashed currentcolor;");
    reveal_strlit("border-right: 0.05em solid currentcolor;"); reveal_strlit("border-right: 0.05em dashed currentcolor;");
    reveal_strlit("padding-top: 0;padding-bottom: 0;"); reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
}
pub broadcast proof fn lemma_cat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_cat_nil(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn lemma_nil_cat(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group group_cat { lemma_cat, lemma_cat_nil, lemma_nil_cat }

// The same in the order it is written, piece by piece.
pub open spec fn mtd_w(b: Seq<char>, style: Seq<char>) -> Seq<char> {
    if style.len() == 0 { b + "<mtd>"@ } else { b + "<mtd style=\""@ + style + "\">"@ }
}
pub proof fn lemma_mtd_w(b: Seq<char>, style: Seq<char>) ensures mtd_w(b, style) == b + mtd(style)
{ assert(mtd_w(b, style) =~= b + mtd(style)); }
pub open spec fn predefined_w(b: Seq<char>, top: Option<LineType>, al: Alignment, col: int) -> Seq<char> {
    match al {
        Alignment::Cases => {
            let c = b + "<mtd style=\""@ + top_css(top) + "text-align: left;justify-items: start;"@ + "padding-right: 0;"@;
            if col % 2 == 0 { c + "\">"@ } else { c + "padding-left:1em;"@ + "\">"@ }
        }
        Alignment::Centered => mtd_w(b, top_css(top)),
        Alignment::Alternating => {
            let c = b + "<mtd style=\""@ + top_css(top);
            if col % 2 == 0 { c + "text-align: right;justify-items: end;"@ + "padding-right: 0;"@ + "\">"@ } else { c + "text-align: left;justify-items: start;"@ + "padding-left: 0;"@ + "\">"@ }
        }
    }
}
pub open spec fn multline_w(b: Seq<char>, top: Option<LineType>, row: int, rows: int) -> Seq<char> {
    let c = b + "<mtd style=\""@ + top_css(top);
    if row == 0 { c + "text-align: left;justify-items: start;"@ + "\">"@ } else if row == rows - 1 { c + "text-align: right;justify-items: end;"@ + "\">"@ } else { mtd_w(b, top_css(top)) }
}
pub open spec fn line_w(b: Seq<char>, a: &ArraySpec, top: Option<LineType>, l: LineType) -> Seq<char> {
    let c = b + "<mtd style=\""@ + top_css(top) + right_css(Some(l));
    let d = if a.is_sub { c + sub_css(true) } else { c };
    d + "padding-left: 0.1em;padding-right: 0.1em;"@ + "\"></mtd>"@
}
pub open spec fn content_w(b: Seq<char>, a: &ArraySpec, top: Option<LineType>, al: ColumnAlignment, r: Option<LineType>) -> Seq<char> {
    if al is Centered && r.is_none() && !a.is_sub { mtd_w(b, top_css(top)) } else {
        let c = b + "<mtd style=\""@ + top_css(top);
        let d = if al is Centered { c } else { c + align_css(al) };
        let e = if r.is_none() { d } else { d + right_css(r) };
        let f = if a.is_sub { e + sub_css(true) } else { e };
        f + "\">"@
    }
}
pub proof fn lemma_predefined_w(b: Seq<char>, top: Option<LineType>, al: Alignment, col: int)
    ensures predefined_w(b, top, al, col) == b + mtd(top_css(top) + predefined(al, col))
{
    broadcast use {lemma_cat_nil, lemma_nil_cat};
    lemma_css_nonempty();
    match al {
        Alignment::Cases => assert(predefined_w(b, top, al, col) =~= b + mtd(top_css(top) + predefined(al, col))),
        Alignment::Centered => assert(predefined_w(b, top, al, col) =~= b + mtd(top_css(top))),
        Alignment::Alternating => assert(predefined_w(b, top, al, col) =~= b + mtd(top_css(top) + predefined(al, col))),
    }
}
pub proof fn lemma_multline_w(b: Seq<char>, top: Option<LineType>, row: int, rows: int)
    ensures multline_w(b, top, row, rows) == b + mtd(top_css(top) + multline(row, rows))
{
    broadcast use {lemma_cat_nil, lemma_nil_cat};
    lemma_css_nonempty();
    assert(multline_w(b, top, row, rows) =~= b + mtd(top_css(top) + multline(row, rows)));
}
pub proof fn lemma_line_w(b: Seq<char>, a: &ArraySpec, top: Option<LineType>, l: LineType, br: Seq<char>, x: Seq<char>)
    ensures line_w(b, a, top, l) == b + line_cell(a, top, l), (line_w(b, a, top, l) + br) + x == b + (line_cell(a, top, l) + br + x),
{
    broadcast use {lemma_cat_nil, lemma_nil_cat};
    lemma_css_nonempty();
    assert(line_w(b, a, top, l) =~= b + line_cell(a, top, l));
    assert((line_w(b, a, top, l) + br) + x =~= b + (line_cell(a, top, l) + br + x));
}
pub proof fn lemma_content_w(b: Seq<char>, a: &ArraySpec, top: Option<LineType>, al: ColumnAlignment, r: Option<LineType>)
    ensures content_w(b, a, top, al, r) == b + mtd(top_css(top) + align_css(al) + right_css(r) + sub_css(a.is_sub))
{
    broadcast use {lemma_cat_nil, lemma_nil_cat};
    lemma_css_nonempty();
    assert(content_w(b, a, top, al, r) =~= b + mtd(top_css(top) + align_css(al) + right_css(r) + sub_css(a.is_sub)));
}

//@fn write_simple_mtd
//@ret r
//@vis pub
//@spec
    ensures r.is_ok(), final(s)@ == old(s)@ + mtd(border_top@)
//@end
    assert(final(s)@ =~= old(s)@ + mtd(border_top@));
//@endfn

impl<'arena> ColumnGenerator<'arena> {
//@fn ColumnGenerator::new_predefined
//@ret r
//@spec
    ensures r.typ == AlignmentType::<'arena>::Predefined(align), r.column_idx == 0, r.row_idx == 0, r.row_border_top.is_none()
//@endfn
//@fn ColumnGenerator::new_custom
//@ret r
//@spec
    ensures r.typ == AlignmentType::<'arena>::Custom(array_spec), r.column_idx == 0, r.row_idx == 0, r.row_border_top.is_none()
//@endfn
//@fn ColumnGenerator::new_multline
//@ret r
//@spec
    ensures r.typ == AlignmentType::<'arena>::MultLine(num_rows), r.column_idx == 0, r.row_idx == 0, r.row_border_top.is_none()
//@endfn
//@fn ColumnGenerator::reset_to_new_row
//@spec
    requires old(self).row_idx < usize::MAX
    ensures final(self).typ == old(self).typ, final(self).column_idx == 0, final(self).row_idx == old(self).row_idx + 1, final(self).row_border_top == old(self).row_border_top
//@endfn
//@fn ColumnGenerator::set_row_border_top
//@spec
    ensures final(self).typ == old(self).typ, final(self).column_idx == old(self).column_idx, final(self).row_idx == old(self).row_idx, final(self).row_border_top == border_top
//@endfn
//@fn ColumnGenerator::write_next_mtd
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@opt noreveal
//@subst num_rows.get() ==> vx_nz_get(&num_rows)
//@spec
    requires in_range(old(self)),
    ensures
        r.is_ok(),
        final(s)@ == old(s)@ + nl(indent_num as nat, indentation) + cell(old(self), nl(indent_num as nat, indentation)),
        final(self).column_idx == next_column(old(self)),
        final(self).typ == old(self).typ, final(self).row_idx == old(self).row_idx, final(self).row_border_top == old(self).row_border_top,
//@start
    let ghost top = self.row_border_top;
    let ghost c0 = self.column_idx as int;
    let ghost br = nl(indent_num as nat, indentation);
    let ghost s0 = s@ + br;
    let ghost g0 = *self;
    proof {
        lemma_css_nonempty();
        lemma_mtd_w(s0, top_css(top));
        match g0.typ {
            AlignmentType::Predefined(al) => lemma_predefined_w(s0, top, al, c0),
            AlignmentType::Custom(a) => {}
            AlignmentType::MultLine(n) => lemma_multline_w(s0, top, self.row_idx as int, nz(n) as int),
        }
    }
//@afterlet border_top
    assert(border_top@ =~= top_css(top));
//@loop 0
    invariant
        self.column_idx >= 1,
        *column_spec == entry_at(array_spec, self.column_idx - 1),
        s@ + custom(array_spec, top, self.column_idx - 1, br) == s0 + custom(array_spec, top, c0, br),
        custom_next(array_spec, self.column_idx - 1) == custom_next(array_spec, c0),
        self.typ == g0.typ, self.row_idx == g0.row_idx, self.row_border_top == g0.row_border_top,
    decreases
        array_spec.column_spec@.len() + 1 - self.column_idx,
//@loopstart 0
    let ghost i = self.column_idx - 1;
    let ghost sb = s@;
    proof { if let ColumnSpecEntry::OnlyLine(l) = *column_spec { lemma_line_w(sb, array_spec, top, l, br, custom(array_spec, top, i + 1, br)); } }
    proof { reveal_with_fuel(custom, 2); reveal_with_fuel(custom_next, 2); }
//@loopend 0
    assert(s@ == line_w(sb, array_spec, top, *line_type) + br);
//@afterloop 0
    proof {
        reveal_with_fuel(custom, 2); reveal_with_fuel(custom_next, 2);
        if let ColumnSpecEntry::WithContent { alignment, border_right } = *column_spec { lemma_content_w(s@, array_spec, top, alignment, border_right); lemma_mtd_w(s@, top_css(top)); }
        assert(custom_next(array_spec, self.column_idx - 1) == self.column_idx);
    }
//@end
    proof { assert(s@ == s0 + cell(&g0, br)); }
//@endfn
}
