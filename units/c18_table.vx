// Tables: what is written for the rows and cells (crates/mathml-renderer/src/ast.rs, table.rs)
//@subst core::fmt::Result ==> Result<(), FmtError>
//@subst core::fmt::Error ==> FmtError
//@include prelude.vx
//@include superchar.vx
//@include fmt.vx
use core::num::NonZeroU16;
//@include columns.vx
//@include shown.vx
//@file crates/mathml-renderer/src/attribute.rs
//@extract enum Style #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@strum-str Style vx_style_name lit
pub trait VxName { spec fn name(self) -> Seq<char>; fn vx_str(self) -> (r: &'static str) ensures r@ == self.name(); }
impl VxName for Style { open spec fn name(self) -> Seq<char> { vx_style_name_spec(self) } fn vx_str(self) -> &'static str { vx_style_name(self) } }
/// the nodes that make up a table, and any other
#[derive(Clone, Copy)]
pub struct VxOther { x: () }
#[derive(Clone, Copy)]
#[allow(inconsistent_fields)]
pub enum Node<'arena> {
    Table { align: Alignment, style: Option<Style>, border_top: Option<LineType>, content: &'arena [&'arena Node<'arena>] },
    EquationArray { align: Alignment, last_row_info: Option<&'arena RowLabelInfo<'arena>>, content: &'arena [&'arena Node<'arena>] },
    MultLine { num_rows: NonZeroU16, last_row_info: Option<&'arena RowLabelInfo<'arena>>, content: &'arena [&'arena Node<'arena>] },
    Array { style: Option<Style>, array_spec: &'arena ArraySpec<'arena>, content: &'arena [&'arena Node<'arena>] },
    ColumnSeparator,
    RowSeparator { label_info: Option<&'arena RowLabelInfo<'arena>>, border_top: Option<LineType> },
    Other(VxOther),
}
// ---- specification -------------------------------------------------------------------------------
/// the surroundings the text of a node depends on
pub struct Env { pub ind: Indentation, pub prefix: Seq<char>, pub labels: Map<Seq<char>, Seq<char>>, pub css: CssClassNames }
pub open spec fn env(e: Emitter) -> Env { Env { ind: e.indentation, prefix: e.id_prefix@, labels: e.label_map@, css: *e.css_classes } }
/// the text of a node at a nesting level
pub uninterp spec fn node_text(n: Node, d: nat, e: Env) -> Seq<char>;
/// one level deeper, where there is any indentation
pub open spec fn deeper(base: nat, d: nat) -> nat { if base > 0 { if d < usize::MAX { d + 1 } else { d } } else { 0 } }
/// a table: how its columns are made, its numbering, and the nesting levels of rows, cells and contents
pub struct Tab<'a> { pub typ: AlignmentType<'a>, pub nums: Option<NumberColums>, pub e: Env, pub d1: nat, pub d2: nat, pub d3: nat }
pub open spec fn dummy(w: NumberColums, d: nat, ind: Indentation) -> Seq<char> { nl(d, ind) + opening(w) + "\"></mtd>"@ }
pub open spec fn row_open(t: Tab) -> Seq<char> {
    nl(t.d1, t.e.ind) + "<mtr>"@ + match t.nums { Some(w) => dummy(w, t.d2, t.e.ind), None => seq![] }
}
pub open spec fn row_close(t: Tab, info: Option<&RowLabelInfo>) -> Seq<char> {
    (match t.nums { Some(w) => number_cell(w, info, t.e.prefix, t.e.ind, t.d2, t.d3), None => seq![] }) + nl(t.d1, t.e.ind) + "</mtr>"@
}
pub open spec fn cell_open(t: Tab, p: (int, int, Option<LineType>)) -> Seq<char> { nl(t.d2, t.e.ind) + cell_at(t.typ, p.2, p.0, p.1, nl(t.d2, t.e.ind)) }
pub open spec fn cell_close(t: Tab) -> Seq<char> { nl(t.d2, t.e.ind) + "</mtd>"@ }
/// after the first `k` pieces of the source: the column, the row, and the line above the row
#[verifier::opaque]
pub open spec fn place(t: Tab, c: Seq<&Node>, k: int) -> (int, int, Option<LineType>) decreases k {
    if k <= 0 || k > c.len() { (after(t.typ, 0), 0, None) } else {
        let p = place(t, c, k - 1);
        match *c[k - 1] {
            Node::ColumnSeparator => (after(t.typ, p.0), p.1, p.2),
            Node::RowSeparator { label_info, border_top } => (after(t.typ, 0), p.1 + 1, border_top),
            _ => p,
        }
    }
}
/// what is written for the `k`-th piece: a separator ends a cell, or a row with its number, and starts the next; anything else is inside the cell
pub open spec fn piece(t: Tab, c: Seq<&Node>, k: int) -> Seq<char> {
    let p = place(t, c, k);
    match *c[k] {
        Node::ColumnSeparator => cell_close(t) + cell_open(t, p),
        Node::RowSeparator { label_info, border_top } => cell_close(t) + row_close(t, label_info) + row_open(t) + cell_open(t, (0, p.1 + 1, border_top)),
        _ => node_text(*c[k], t.d3, t.e),
    }
}
#[verifier::opaque]
pub open spec fn pieces(t: Tab, c: Seq<&Node>, k: int) -> Seq<char> decreases k {
    if k <= 0 || k > c.len() { row_open(t) + cell_open(t, (0, 0, None)) } else { pieces(t, c, k - 1) + piece(t, c, k - 1) }
}
pub open spec fn rows(t: Tab, c: Seq<&Node>, last: Option<&RowLabelInfo>, base: nat) -> Seq<char> {
    pieces(t, c, c.len() as int) + (cell_close(t) + row_close(t, last)) + (nl(base, t.e.ind) + "</mtable>"@)
}
pub open spec fn tab<'a>(typ: AlignmentType<'a>, nums: Option<NumberColums>, e: Env, base: nat, d: nat) -> Tab<'a> {
    Tab { typ, nums, e, d1: d, d2: deeper(base, d), d3: deeper(base, deeper(base, d)) }
}
pub open spec fn style_text(s: Option<Style>) -> Seq<char> { match s { Some(s) => s.name(), None => seq![] } }
pub open spec fn left_css(t: Option<LineType>) -> Seq<char> {
    match t { None => seq![], Some(LineType::Solid) => "border-left: 0.05em solid currentcolor;"@, Some(LineType::Dashed) => "border-left: 0.05em dashed currentcolor;"@ }
}
/// the lines around a table
pub open spec fn frame(left: Option<LineType>, top: Option<LineType>) -> Seq<char> {
    if left.is_none() && top.is_none() { seq![] } else { " style=\""@ + left_css(left) + top_css(top) + "\""@ }
}
/// a slice has at most isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_slices(c: &[&Node], a: &[ColumnSpecEntry]) ensures c@.len() <= isize::MAX / 8, a@.len() <= isize::MAX { }
pub open spec fn bounded(t: AlignmentType, col: int, n: int) -> bool { 0 <= col <= n + match t { AlignmentType::Custom(a) => a.column_spec@.len() as int, _ => 0 } }
proof fn lemma_next(t: AlignmentType, col: int)
    requires 0 <= col
    ensures col < after(t, col), match t { AlignmentType::Custom(a) => after(t, col) <= a.column_spec@.len() + 1 || after(t, col) == col + 1, _ => after(t, col) == col + 1 }
    decreases match t { AlignmentType::Custom(a) => a.column_spec@.len() - col, _ => 0 }
{
    match t { AlignmentType::Custom(a) => { reveal_with_fuel(custom_next, 2); if col < a.column_spec@.len() && entry_at(a, col) is OnlyLine { lemma_next(t, col + 1); } } _ => {} }
}
//@file crates/mathml-renderer/src/ast.rs
impl NumberColums {
//@fn NumberColums::initial_dummy_column
//@ret r
//@spec
    ensures r.is_ok(), final(s)@ =~= old(s)@ + dummy(self, child_indent2 as nat, indentation)
//@endfn
}
impl<'state> Emitter<'state> {
    /// the text of anything inside a cell
    #[verifier::external_body]
    pub fn emit(&mut self, node: &Node<'_>, base_indent: usize) -> (r: Result<(), FmtError>)
        ensures r.is_ok(), final(self).s@ == old(self).s@ + node_text(*node, base_indent as nat, env(*old(self))), env(*final(self)) == env(*old(self))
    { unimplemented!() }
//@fn Emitter::emit_table
//@ret r
//@opt noreveal
//@spec
    requires col_gen.column_idx == 0, col_gen.row_idx == 0, col_gen.row_border_top.is_none(),
    ensures r.is_ok(), env(*final(self)) == env(*old(self)),
        final(self).s@ == old(self).s@ + rows(tab(col_gen.typ, numbering_cols, env(*old(self)), base_indent as nat, child_indent as nat), content@, last_row_info, base_indent as nat)
//@start
    hide(cell_at); hide(number_cell); hide(dummy);
    broadcast use group_cat;
    let ghost s0 = self.s@;
    let ghost e0 = env(*self);
    let ghost t = tab(col_gen.typ, numbering_cols, e0, base_indent as nat, child_indent as nat);
    proof {
        reveal_with_fuel(place, 1); reveal_with_fuel(pieces, 1);
        lemma_next(t.typ, 0);
        match col_gen.typ { AlignmentType::Custom(a) => axiom_slices(content, a.column_spec), _ => axiom_slices(content, &[]) }
    }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == content@.len(), forall|i: int| 0 <= i < content@.len() ==> *#[trigger] it.seq()[i] == content@[i], content@.len() <= isize::MAX / 8,
        t == tab(col_gen.typ, numbering_cols, e0, base_indent as nat, child_indent as nat), env(*self) == e0,
        child_indent2 == t.d2, child_indent3 == t.d3,
        match t.typ { AlignmentType::Custom(a) => a.column_spec@.len() <= isize::MAX, _ => true },
        (col_gen.column_idx as int, col_gen.row_idx as int, col_gen.row_border_top) == place(t, content@, it.index@ as int),
        bounded(t.typ, col_gen.column_idx as int, it.index@ + 1), col_gen.row_idx <= it.index@,
        self.s@ == s0 + pieces(t, content@, it.index@ as int),
//@loopstart 0
    broadcast use group_cat;
    let ghost k = it.index@ as int;
    proof {
        assert(content@[k] == *node);
        reveal_with_fuel(place, 2); reveal_with_fuel(pieces, 2);
        lemma_next(t.typ, 0); lemma_next(t.typ, col_gen.column_idx as int);
        assert(place(t, content@, k + 1) == match **node { Node::ColumnSeparator => (after(t.typ, col_gen.column_idx as int), col_gen.row_idx as int, col_gen.row_border_top), Node::RowSeparator { label_info, border_top } => (after(t.typ, 0), col_gen.row_idx + 1, border_top), _ => place(t, content@, k) });
        assert(pieces(t, content@, k + 1) == pieces(t, content@, k) + piece(t, content@, k));
    }
//@endfn
//@fn value:Emitter::emit:Table as vx_table
//@subst <&str>::from(style) ==> style.vx_str()
//@opt noreveal
//@sig fn vx_table<'arena>(&mut self, vx_tok: Node<'arena>, base_indent: usize, child_indent: usize) -> (r: Result<(), FmtError>)
//@spec
    requires vx_tok is Table
    ensures r.is_ok(), match vx_tok {
        Node::Table { align, style, border_top, content } => final(self).s@ == old(self).s@ + "<mtable"@ + frame(None, border_top) + style_text(style) + ">"@
            + rows(tab(AlignmentType::Predefined(align), None, env(*old(self)), base_indent as nat, child_indent as nat), content@, None, base_indent as nat),
        _ => false,
    }
//@start
    hide(rows);
    broadcast use group_cat;
//@endfn
//@fn value:Emitter::emit:EquationArray as vx_equations
//@subst ref node @ ==> node @
//@subst match node ==> match &node
//@opt noreveal
//@sig fn vx_equations<'arena>(&mut self, vx_tok: Node<'arena>, base_indent: usize, child_indent: usize) -> (r: Result<(), FmtError>)
//@spec
    requires vx_tok is EquationArray || vx_tok is MultLine
    ensures r.is_ok(), match vx_tok {
        Node::EquationArray { align, last_row_info, content } => final(self).s@ == old(self).s@ + "<mtable displaystyle=\"true\" scriptlevel=\"0\" style=\"width: 100%\">"@
            + rows(tab(AlignmentType::Predefined(align), Some(NumberColums::Wide), env(*old(self)), base_indent as nat, child_indent as nat), content@, last_row_info, base_indent as nat),
        Node::MultLine { num_rows, last_row_info, content } => final(self).s@ == old(self).s@ + "<mtable displaystyle=\"true\" scriptlevel=\"0\" style=\"width: 100%\">"@
            + rows(tab(AlignmentType::MultLine(num_rows), Some(NumberColums::Narrow), env(*old(self)), base_indent as nat, child_indent as nat), content@, last_row_info, base_indent as nat),
        _ => false,
    }
//@start
    hide(rows);
    broadcast use group_cat;
//@endfn
//@fn value:Emitter::emit:Array as vx_array
//@subst <&str>::from(style) ==> style.vx_str()
//@opt noreveal
//@sig fn vx_array<'arena>(&mut self, vx_tok: Node<'arena>, base_indent: usize, child_indent: usize) -> (r: Result<(), FmtError>)
//@spec
    requires vx_tok is Array
    ensures r.is_ok(), match vx_tok {
        Node::Array { style, array_spec, content } => final(self).s@ == old(self).s@ + "<mtable"@ + frame(array_spec.border_left, array_spec.border_top) + style_text(style) + ">"@
            + rows(tab(AlignmentType::Custom(array_spec), None, env(*old(self)), base_indent as nat, child_indent as nat), content@, None, base_indent as nat),
        _ => false,
    }
//@start
    hide(rows);
    broadcast use group_cat;
//@endfn
}
} // verus!
fn main() {}
