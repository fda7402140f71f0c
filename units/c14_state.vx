// The converter's state: what a conversion depends on and what it changes (crates/math-core/src/lib.rs)
//@include prelude.vx
//@subst FxHashMap<KString, KString> ==> VxLabels
//@subst FxHashMap<KString, CmdDef> ==> VxDefs
//@subst Cow<'static, str> ==> String
//@subst GlobalState::default() ==> vx_fresh()
//@subst core::mem::take(&mut config.macros) ==> vx_take_macros(&mut config)
/// a macro body, a tree, an error, the warnings: values nothing here looks into
#[verifier::external_body]
pub struct RecordedToken { x: () }
#[verifier::external_body]
pub struct Node<'a> { x: &'a () }
#[verifier::external_body]
pub struct LatexError { x: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Warnings { x: () }
#[verifier::external_body]
pub struct Arena { x: () }
impl Arena { #[verifier::external_body] pub fn new() -> Arena { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Class { x: () }
#[verifier::external_body]
pub struct VxLabels { x: () }
impl View for VxLabels { type V = Map<Seq<char>, Seq<char>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>; }
impl VxLabels {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct VxDefs { x: () }
impl View for VxDefs { type V = Map<Seq<char>, CmdDef>; uninterp spec fn view(&self) -> Map<Seq<char>, CmdDef>; }
impl VxDefs {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, CmdDef>::empty() { unimplemented!() }
}
//@file crates/math-core/src/custom_cmds.rs
//@extract struct CmdDef
//@extract struct CustomCmds
//@file crates/math-core/src/global_state.rs
//@extract struct GlobalState
//@file crates/mathml-renderer/src/fmt.rs
//@file crates/mathml-renderer/src/ast.rs
//@extract enum IndentKeyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Indentation #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct CssClassNames
//@file crates/math-core/src/lib.rs
//@extract enum MathDisplay #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum PrettyPrint #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum UnicodeSubstitution #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract struct MaxExpansions #[derive(Clone, Copy)]
//@extract struct MathCoreConfig
//@extract struct ParserConfig
//@extract struct EmitterConfig
//@extract struct LatexToMathML
//@extract struct ConvertResult
//@extract type MacroParseError
//@extract type ParseResult

// ---- specification -------------------------------------------------------------------------------
pub struct SV { pub count: usize, pub labels: Map<Seq<char>, Seq<char>>, pub bodies: Seq<RecordedToken>, pub defs: Map<Seq<char>, CmdDef> }
/// all there is in the state: a field more and this does not compile
pub open spec fn whole(s: GlobalState) -> bool { s == (GlobalState { equation_count: s.equation_count, label_map: s.label_map, custom_cmds: CustomCmds { tokens: s.custom_cmds.tokens, map: s.custom_cmds.map } }) }
pub open spec fn sv(s: GlobalState) -> SV { SV { count: s.equation_count, labels: s.label_map@, bodies: s.custom_cmds.tokens@, defs: s.custom_cmds.map@ } }
pub open spec fn new_sv() -> SV { SV { count: 0, labels: Map::empty(), bodies: Seq::empty(), defs: Map::empty() } }
/// what the parser makes of a snippet, and what it leaves behind, is a function of the snippet, the configuration and the state
pub uninterp spec fn tree<'a>(n: Seq<&'a Node<'a>>) -> int;
pub uninterp spec fn parse_to(latex: Seq<char>, d: MathDisplay, cfg: ParserConfig, s: SV) -> Result<int, Box<LatexError>>;
pub uninterp spec fn parse_leaves(latex: Seq<char>, d: MathDisplay, cfg: ParserConfig, s: SV) -> SV;
pub uninterp spec fn emitted(t: int, latex: Seq<char>, d: MathDisplay, labels: Map<Seq<char>, Seq<char>>, cfg: EmitterConfig) -> (Seq<char>, Warnings);
/// the outcome of one conversion
pub open spec fn outcome(latex: Seq<char>, d: MathDisplay, p: ParserConfig, e: EmitterConfig, s: SV) -> Result<(Seq<char>, Warnings), Box<LatexError>> {
    match parse_to(latex, d, p, s) { Ok(t) => Ok(emitted(t, latex, d, parse_leaves(latex, d, p, s).labels, e)), Err(x) => Err(x) }
}
pub open spec fn is_outcome(r: Result<ConvertResult, Box<LatexError>>, w: Result<(Seq<char>, Warnings), Box<LatexError>>) -> bool {
    match (r, w) { (Ok(r), Ok(w)) => r.mathml@ == w.0 && r.warnings == w.1, (Err(a), Err(b)) => a == b, _ => false }
}
/// the state before snippet `k` of a document converted one after the other from state `s`
pub type Doc<'a> = Seq<(&'a str, MathDisplay)>;
#[verifier::opaque]
pub open spec fn state_at(doc: Doc, p: ParserConfig, s: SV, k: nat) -> SV decreases k {
    if k == 0 { s } else { parse_leaves(doc[k - 1].0@, doc[k - 1].1, p, state_at(doc, p, s, (k - 1) as nat)) }
}
/// what snippet `k` of a collection gives: its own tree, with the labels of the whole collection
pub open spec fn collected(doc: Doc, p: ParserConfig, e: EmitterConfig, k: int) -> Result<(Seq<char>, Warnings), Box<LatexError>> {
    match parse_to(doc[k].0@, doc[k].1, p, state_at(doc, p, new_sv(), k as nat)) {
        Ok(t) => Ok(emitted(t, doc[k].0@, doc[k].1, state_at(doc, p, new_sv(), doc.len()).labels, e)),
        Err(x) => Err(x),
    }
}
/// what is kept of snippet `k` until all are parsed
pub open spec fn parsed<'a>(r: ParseResult<(Vec<&'a Node<'a>>, &'a str, MathDisplay)>, doc: Doc, p: ParserConfig, k: int) -> bool {
    match (r, parse_to(doc[k].0@, doc[k].1, p, state_at(doc, p, new_sv(), k as nat))) {
        (Ok(x), Ok(t)) => tree(x.0@) == t && x.1@ == doc[k].0@ && x.2 == doc[k].1,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
#[verifier::external_body]
pub fn vx_fresh() -> (r: GlobalState) ensures sv(r) == new_sv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_take_macros(c: &mut MathCoreConfig) -> (r: Vec<(String, String)>)
    ensures *final(c) == (MathCoreConfig { macros: final(c).macros, ..*old(c) }), r == old(c).macros
{ unimplemented!() }
/// the macros of a configuration
pub uninterp spec fn configured(m: Seq<(String, String)>, u: UnicodeSubstitution, a: bool) -> Result<CustomCmds, MacroParseError>;
#[verifier::external_body]
pub fn parse_custom_commands(macros: Vec<(String, String)>, unicode_substitution: UnicodeSubstitution, allow_unreliable_rendering: bool) -> (r: Result<CustomCmds, MacroParseError>)
    ensures r == configured(macros@, unicode_substitution, allow_unreliable_rendering)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse<'arena>(latex: &'arena str, arena: &'arena Arena, parser_cfg: &'arena ParserConfig, state: &mut GlobalState, display: MathDisplay) -> (r: Result<Vec<&'arena Node<'arena>>, Box<LatexError>>)
    ensures
        sv(*final(state)) == parse_leaves(latex@, display, *parser_cfg, sv(*old(state))),
        match (r, parse_to(latex@, display, *parser_cfg, sv(*old(state)))) { (Ok(n), Ok(t)) => tree(n@) == t, (Err(a), Err(b)) => a == b, _ => false },
{ unimplemented!() }
#[verifier::external_body]
pub fn emit(ast: Vec<&Node>, latex: &str, display: MathDisplay, label_map: &VxLabels, arena: &Arena, flags: &EmitterConfig) -> (r: ConvertResult)
    ensures r.mathml@ == emitted(tree(ast@), latex@, display, label_map@, *flags).0, r.warnings == emitted(tree(ast@), latex@, display, label_map@, *flags).1
{ unimplemented!() }
//@file crates/math-core/src/custom_cmds.rs
impl CustomCmds {
//@fn CustomCmds::clear
//@spec
    ensures final(self).tokens@ =~= Seq::<RecordedToken>::empty(), final(self).map@ == Map::<Seq<char>, CmdDef>::empty()
//@endfn
}
//@file crates/math-core/src/lib.rs
impl EmitterConfig {
//@fn <From~MathCoreConfig>EmitterConfig::from
//@ret r
//@spec
    ensures r == (EmitterConfig { pretty_print: config.pretty_print, xml_namespace: config.xml_namespace, annotation: config.annotation, css_classes: config.css_classes, indentation: config.indentation, id_prefix: config.id_prefix })
//@endfn
}
//@fn convert
//@ret r
//@spec
    ensures sv(*final(state)) == parse_leaves(latex@, display, *parser_cfg, sv(*old(state))), is_outcome(r, outcome(latex@, display, *parser_cfg, *flags, sv(*old(state))))
//@endfn
pub open spec fn same_cfg(a: LatexToMathML, b: LatexToMathML) -> bool { a.emitter_cfg == b.emitter_cfg && a.parser_cfg == b.parser_cfg }
impl LatexToMathML {
//@fn LatexToMathML::new
//@ret r
//@spec
    ensures r matches Ok(c) ==> {
        &&& sv(c.state) == new_sv()
        &&& c.emitter_cfg == (EmitterConfig { pretty_print: config.pretty_print, xml_namespace: config.xml_namespace, annotation: config.annotation, css_classes: config.css_classes, indentation: config.indentation, id_prefix: config.id_prefix })
        &&& configured(config.macros@, config.unicode_substitution, config.allow_unreliable_rendering) == Ok::<CustomCmds, MacroParseError>(c.parser_cfg.custom_cmds_from_cfg)
        &&& c.parser_cfg == (ParserConfig { custom_cmds_from_cfg: c.parser_cfg.custom_cmds_from_cfg, ignore_unknown_commands: config.ignore_unknown_commands, allow_unreliable_rendering: config.allow_unreliable_rendering,
                global_group: config.global_group, unicode_substitution: config.unicode_substitution, max_expansions: config.max_expansions })
    }
//@endfn
//@fn LatexToMathML::convert_with_global_state
//@ret r
//@spec
    ensures same_cfg(*final(self), *old(self)), sv(final(self).state) == parse_leaves(latex@, display, old(self).parser_cfg, sv(old(self).state)),
        is_outcome(r, outcome(latex@, display, old(self).parser_cfg, old(self).emitter_cfg, sv(old(self).state)))
//@endfn
//@fn LatexToMathML::convert_with_local_state
//@ret r
//@spec
    ensures is_outcome(r, outcome(latex@, display, self.parser_cfg, self.emitter_cfg, new_sv()))
//@endfn
//@fn LatexToMathML::reset_global_state
//@spec
    ensures same_cfg(*final(self), *old(self)), sv(final(self).state) == new_sv()
//@endfn
//@fn LatexToMathML::convert_all
//@ret r
//@opt resultmap
//@spec
    ensures r@.len() == snippets@.len(), forall|k: int| 0 <= k < r@.len() ==> is_outcome(#[trigger] r@[k], collected(snippets@, self.parser_cfg, self.emitter_cfg, k))
//@start
    proof { reveal_with_fuel(state_at, 2); }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == snippets@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == snippets@[i],
        vx_vec@.len() == it.index@, sv(state) == state_at(snippets@, self.parser_cfg, new_sv(), it.index@ as nat),
        forall|k: int| 0 <= k < it.index@ ==> parsed(#[trigger] vx_vec@[k], snippets@, self.parser_cfg, k)
//@loopstart 0
    proof { reveal_with_fuel(state_at, 2); }
//@forvar 1 jt
//@loop 1
    invariant
        jt.seq().len() == snippets@.len(), sv(state) == state_at(snippets@, self.parser_cfg, new_sv(), snippets@.len()),
        forall|k: int| 0 <= k < jt.seq().len() ==> parsed(#[trigger] jt.seq()[k], snippets@, self.parser_cfg, k),
        vx_vec@.len() == jt.index@, forall|k: int| 0 <= k < jt.index@ ==> is_outcome(#[trigger] vx_vec@[k], collected(snippets@, self.parser_cfg, self.emitter_cfg, k))
//@endfn
}
// ---- whole histories -------------------------------------------------------------------------------
/// One call on a converter (the effect of each on the state is its contract above).
pub enum Call<'a> { Global(&'a str, MathDisplay), Local(&'a str, MathDisplay), All(Doc<'a>), Reset }
pub open spec fn effect(c: Call, p: ParserConfig, s: SV) -> SV { match c { Call::Global(l, d) => parse_leaves(l@, d, p, s), Call::Local(..) => s, Call::All(_) => s, Call::Reset => new_sv() } }
#[verifier::opaque]
pub open spec fn after(h: Seq<Call>, p: ParserConfig, s: SV) -> SV decreases h.len() { if h.len() == 0 { s } else { effect(h.last(), p, after(h.drop_last(), p, s)) } }
/// the outcome of converting one more snippet after a history of calls
pub open spec fn then_global(h: Seq<Call>, l: Seq<char>, d: MathDisplay, p: ParserConfig, e: EmitterConfig) -> Result<(Seq<char>, Warnings), Box<LatexError>> { outcome(l, d, p, e, after(h, p, new_sv())) }
pub proof fn lemma_after_cat(a: Seq<Call>, b: Seq<Call>, p: ParserConfig, s: SV)
    ensures after(a + b, p, s) == after(b, p, after(a, p, s))
    decreases b.len()
{
    reveal_with_fuel(after, 2);
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_after_cat(a, b.drop_last(), p, s); }
}
/// After a reset, whatever came before, every further history of calls ends as on a new converter.
pub proof fn lemma_reset(h: Seq<Call>, b: Seq<Call>, l: Seq<char>, d: MathDisplay, p: ParserConfig, e: EmitterConfig)
    ensures then_global(h.push(Call::Reset) + b, l, d, p, e) == then_global(b, l, d, p, e)
{
    reveal_with_fuel(after, 2);
    lemma_after_cat(h.push(Call::Reset), b, p, new_sv());
    assert(h.push(Call::Reset).drop_last() =~= h);
}
/// Calls with local state change nothing for later ones.
pub proof fn lemma_local(h: Seq<Call>, b: Seq<Call>, c: Call, l: Seq<char>, d: MathDisplay, p: ParserConfig, e: EmitterConfig)
    requires c is Local || c is All
    ensures then_global(h.push(c) + b, l, d, p, e) == then_global(h + b, l, d, p, e)
{
    reveal_with_fuel(after, 2);
    lemma_after_cat(h.push(c), b, p, new_sv());
    lemma_after_cat(h, b, p, new_sv());
    assert(h.push(c).drop_last() =~= h);
}
/// The calls that convert the first `k` snippets one after the other.
pub open spec fn one_by_one(doc: Doc, k: nat) -> Seq<Call> { Seq::new(k, |i: int| Call::Global(doc[i].0, doc[i].1)) }
/// Converted in one call, every snippet starts from the numbers, labels and macros it would start from one after the other, so it has the same tree.
pub proof fn lemma_collection(doc: Doc, p: ParserConfig, k: nat)
    requires k <= doc.len()
    ensures state_at(doc, p, new_sv(), k) == after(one_by_one(doc, k), p, new_sv())
    decreases k
{
    reveal_with_fuel(state_at, 2);
    reveal_with_fuel(after, 2);
    if k > 0 { lemma_collection(doc, p, (k - 1) as nat); assert(one_by_one(doc, k).drop_last() =~= one_by_one(doc, (k - 1) as nat)); }
}
/// If the labels of the whole collection are those known after snippet `k`, the outcome is the same, too.
pub proof fn lemma_collected(doc: Doc, p: ParserConfig, e: EmitterConfig, k: int)
    requires 0 <= k < doc.len(), state_at(doc, p, new_sv(), doc.len()).labels == state_at(doc, p, new_sv(), (k + 1) as nat).labels
    ensures collected(doc, p, e, k) == then_global(one_by_one(doc, k as nat), doc[k].0@, doc[k].1, p, e)
{
    reveal_with_fuel(state_at, 2);
    lemma_collection(doc, p, k as nat);
}
/// A field of the state that this specification does not know about would go unnoticed: this states that there is none.
pub proof fn lemma_whole(s: GlobalState) ensures whole(s) {}
} // verus!
fn main() {}
