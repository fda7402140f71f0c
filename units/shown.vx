// Tags, numbers and references as they are shown (crates/mathml-renderer/src/ast.rs)
//@subst Cow<'static, str> ==> String
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst percent_encode(link_target.as_bytes(), FRAGMENT_SAFE) ==> vx_percent(link_target)
//@subst percent_encode(label.as_bytes(), FRAGMENT_SAFE) ==> vx_percent(label)
//@file crates/mathml-renderer/src/table.rs
//@extract struct EquationTag #[derive(Clone, Copy)]
//@extract struct RowLabelInfo
//@file crates/mathml-renderer/src/ast.rs
//@extract enum NumberColums #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@bitflags InnerWarnings #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct Warnings #[derive(Clone, Copy)]
//@extract struct CssClassNames
/// the label map: names to tags
#[verifier::external_body]
pub struct VxLabels { x: () }
impl View for VxLabels { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxLabels {
    #[verifier::external_body]
    pub fn get(&self, label: &str) -> (r: Option<&str>) ensures match r { Some(t) => self@.contains_key(label@) && t@ == self@[label@], None => !self@.contains_key(label@) } { unimplemented!() }
}
//@extract struct Emitter
/// the identifier made of a label: one function of the label, wherever it is used
pub uninterp spec fn ident(l: Seq<char>) -> Seq<char>;
pub struct VxPercent { pub t: Ghost<Seq<char>> }
impl VxDisp for VxPercent { open spec fn vx_text(&self) -> Seq<char> { self.t@ } }
#[verifier::external_body]
pub fn vx_percent(s: &str) -> (r: VxPercent) ensures r.vx_text() == ident(s@) { unimplemented!() }
// ---- specification -------------------------------------------------------------------------------
pub open spec fn opening(w: NumberColums) -> Seq<char> { if w is Narrow { "<mtd style=\"width: 7.5%"@ } else { "<mtd style=\"width: 50%"@ } }
pub open spec fn shown_tag(t: EquationTag) -> Seq<char> { if t.parenthesized { "<mtext>("@ + escape5(t.text@) + ")</mtext>"@ } else { "<mtext>"@ + escape5(t.text@) + "</mtext>"@ } }
pub open spec fn shown_id(p: Seq<char>, l: Option<&str>) -> Seq<char> { match l { Some(l) => " id=\""@ + p + ident(l@) + "\">"@, None => ">"@ } }
/// the number column of a row: the tag, and the identifier of its label
pub open spec fn number_cell(w: NumberColums, i: Option<&RowLabelInfo>, p: Seq<char>, ind: Indentation, d2: nat, d3: nat) -> Seq<char> {
    nl(d2, ind) + opening(w) + match i {
        Some(i) => ";"@ + RIGHT_ALIGN@ + "\""@ + shown_id(p, i.link_target) + nl(d3, ind) + shown_tag(i.tag) + nl(d2, ind) + "</mtd>"@,
        None => "\"></mtd>"@,
    }
}
/// a reference: the identifier of the label, and what the label stands for
pub open spec fn shown_ref(p: Seq<char>, l: Seq<char>, m: Map<Seq<char>, Seq<char>>) -> Seq<char> {
    "<mtext><a href=\"#"@ + p + ident(l) + "\">("@ + escape5(if m.contains_key(l) { m[l] } else { "??"@ }) + ")</a></mtext>"@
}
//@file crates/mathml-renderer/src/ast.rs
impl Warnings {
//@fn Warnings::set_undefined_references
//@spec
    ensures final(self).inner.has(InnerWarnings::UNDEFINED_REFERENCES), final(self).inner.has(InnerWarnings::UNKNOWN_COMMANDS) == old(self).inner.has(InnerWarnings::UNKNOWN_COMMANDS)
//@end
    let ghost (a, b) = (old(self).inner.b, self.inner.b);
    assert((a | 1u8) & 1u8 == 1u8 && (a | 1u8) & 2u8 == a & 2u8) by (bit_vector);
//@endfn
//@fn Warnings::set_unknown_commands
//@spec
    ensures final(self).inner.has(InnerWarnings::UNKNOWN_COMMANDS), final(self).inner.has(InnerWarnings::UNDEFINED_REFERENCES) == old(self).inner.has(InnerWarnings::UNDEFINED_REFERENCES)
//@end
    let ghost (a, b) = (old(self).inner.b, self.inner.b);
    assert((a | 2u8) & 2u8 == 2u8 && (a | 2u8) & 1u8 == a & 1u8) by (bit_vector);
//@endfn
//@fn Warnings::has_undefined_references
//@ret r
//@spec
    ensures r == self.inner.has(InnerWarnings::UNDEFINED_REFERENCES)
//@endfn
//@fn Warnings::has_unknown_commands
//@ret r
//@spec
    ensures r == self.inner.has(InnerWarnings::UNKNOWN_COMMANDS)
//@endfn
//@fn Warnings::new
//@ret r
//@spec
    ensures !r.inner.has(InnerWarnings::UNDEFINED_REFERENCES), !r.inner.has(InnerWarnings::UNKNOWN_COMMANDS)
//@end
    assert(0u8 & 1u8 != 1u8 && 0u8 & 2u8 != 2u8) by (bit_vector);
//@endfn
}
impl NumberColums {
//@fn NumberColums::dummy_column_opening
//@ret r
//@spec
    ensures r.is_ok(), final(s)@ =~= old(s)@ + (nl(child_indent2 as nat, indentation) + opening(self))
//@endfn
}
//@fn write_equation_num
//@ret r
//@vis pub
//@spec
    ensures r.is_ok(), final(s)@ =~= old(s)@ + number_cell(numbering_cols, label_info, id_prefix@, indentation, child_indent2 as nat, child_indent3 as nat)
//@endfn
