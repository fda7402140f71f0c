// How tags, numbers and references are shown (crates/mathml-renderer/src/ast.rs)
//@subst core::fmt::Result ==> Result<(), FmtError>
//@subst core::fmt::Error ==> FmtError
//@include prelude.vx
//@include superchar.vx
//@include fmt.vx
//@file crates/mathml-renderer/src/table.rs
//@extract const RIGHT_ALIGN
//@include shown.vx
/// the two nodes below are all that matters here
pub enum Node<'arena> { EqRef(&'arena str), Other }
impl<'state> Emitter<'state> {
//@fn value:Emitter::emit:EqRef as vx_eq_ref
//@sig fn vx_eq_ref<'arena>(&mut self, vx_tok: &Node<'arena>) -> (r: Result<(), FmtError>)
//@spec
    requires vx_tok is EqRef
    ensures r.is_ok(), final(self).s@ =~= old(self).s@ + shown_ref(old(self).id_prefix@, (vx_tok->EqRef_0)@, old(self).label_map@),
        !old(self).label_map@.contains_key((vx_tok->EqRef_0)@) ==> final(self).warnings.inner.has(InnerWarnings::UNDEFINED_REFERENCES),
        old(self).label_map@.contains_key((vx_tok->EqRef_0)@) ==> final(self).warnings == old(self).warnings
//@endfn
}
} // verus!
fn main() {}
