//@include prelude.vx
//@include utf8.vx

//@file crates/mathml-renderer/src/table.rs
//@extract enum ColumnAlignment #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum LineType #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum ColumnSpecEntry #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract type ColumnSpec
//@extract struct ArraySpec

// ---- specification -------------------------------------------------------------------------------
pub enum Mark { Col(ColumnAlignment), Line(LineType) }
pub open spec fn is_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 12 || b == 13 }
pub open spec fn mark(b: u8) -> Option<Mark> {
    if b == 108 { Some(Mark::Col(ColumnAlignment::LeftJustified)) } else if b == 99 { Some(Mark::Col(ColumnAlignment::Centered)) }
    else if b == 114 { Some(Mark::Col(ColumnAlignment::RightJustified)) } else if b == 124 { Some(Mark::Line(LineType::Solid)) }
    else if b == 58 { Some(Mark::Line(LineType::Dashed)) } else { None }
}
/// The marks of a specification in order; blanks count for nothing.
pub open spec fn marks(s: Seq<u8>) -> Seq<Mark> decreases s.len() {
    if s.len() == 0 { seq![] } else { match mark(s.last()) { Some(m) => marks(s.drop_last()).push(m), None => marks(s.drop_last()) } }
}
pub open spec fn legal(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> mark(#[trigger] s[i]).is_some() || is_ws(s[i]) }
pub open spec fn is_col(m: Mark) -> bool { m is Col }
pub open spec fn has_col(m: Seq<Mark>) -> bool { exists|i: int| 0 <= i < m.len() && is_col(#[trigger] m[i]) }
/// A column takes the line directly after it as its right border; every other line stands alone.
pub open spec fn step(m: Seq<Mark>) -> int { if m.len() > 1 && m[0] is Col && m[1] is Line { 2 } else { 1 } }
pub open spec fn head(m: Seq<Mark>) -> ColumnSpecEntry {
    match m[0] {
        Mark::Line(l) => ColumnSpecEntry::OnlyLine(l),
        Mark::Col(a) => ColumnSpecEntry::WithContent { alignment: a, border_right: if step(m) == 2 { Some(m[1]->Line_0) } else { None } },
    }
}
#[verifier::opaque]
pub open spec fn entries(m: Seq<Mark>) -> Seq<ColumnSpecEntry> decreases m.len() {
    if m.len() == 0 { seq![] } else { seq![head(m)] + entries(m.skip(step(m))) }
}
/// A line in front of everything is the left border of the table.
pub open spec fn left(m: Seq<Mark>) -> Option<LineType> { if m.len() > 0 && m[0] is Line { Some(m[0]->Line_0) } else { None } }
pub open spec fn rest(m: Seq<Mark>) -> Seq<Mark> { if m.len() > 0 && m[0] is Line { m.skip(1) } else { m } }
pub open spec fn columns(s: Seq<u8>) -> Option<(Option<LineType>, Seq<ColumnSpecEntry>)> {
    if legal(s) && has_col(marks(s)) { Some((left(marks(s)), entries(rest(marks(s))))) } else { None }
}
pub open spec fn open_end(e: Seq<ColumnSpecEntry>) -> bool { e.len() > 0 && e.last() is WithContent && e.last()->border_right is None }
pub open spec fn closed(e: Seq<ColumnSpecEntry>, l: LineType) -> Seq<ColumnSpecEntry> {
    e.update(e.len() - 1, ColumnSpecEntry::WithContent { alignment: e.last()->alignment, border_right: Some(l) })
}
pub proof fn lemma_nil() ensures entries(seq![]) == Seq::<ColumnSpecEntry>::empty() { reveal_with_fuel(entries, 1); }
pub proof fn lemma_unfold(m: Seq<Mark>)
    requires m.len() > 0
    ensures entries(m) == seq![head(m)] + entries(m.skip(step(m)))
{ reveal_with_fuel(entries, 2); }
pub open spec fn snoc(e: Seq<ColumnSpecEntry>, x: Mark) -> Seq<ColumnSpecEntry> {
    match x {
        Mark::Col(a) => e.push(ColumnSpecEntry::WithContent { alignment: a, border_right: None }),
        Mark::Line(l) => if open_end(e) { closed(e, l) } else { e.push(ColumnSpecEntry::OnlyLine(l)) },
    }
}
pub proof fn lemma_snoc_cons(h: ColumnSpecEntry, e: Seq<ColumnSpecEntry>, x: Mark)
    requires e.len() > 0
    ensures snoc(seq![h] + e, x) == seq![h] + snoc(e, x)
{
    assert((seq![h] + e).last() == e.last());
    assert(snoc(seq![h] + e, x) =~= seq![h] + snoc(e, x));
}
/// one more mark at the end
pub proof fn lemma_snoc(m: Seq<Mark>, x: Mark)
    ensures
        entries(m.push(x)) == snoc(entries(m), x),
        m.len() > 0 ==> (open_end(entries(m)) <==> m.last() is Col) && entries(m).len() > 0,
    decreases m.len()
{
    let n = m.push(x);
    lemma_nil();
    lemma_unfold(n);
    if m.len() == 0 {
        assert(m =~= seq![]);
        assert(n.skip(1) =~= seq![]);
        assert(n[0] == x);
        assert(entries(n) =~= snoc(entries(m), x));
    } else {
        let k = step(m);
        lemma_unfold(m);
        assert(n[0] == m[0]);
        let t = m.skip(k);
        let e = entries(t);
        if t.len() > 0 {
            lemma_snoc(t, x);
            assert(n.skip(k) =~= t.push(x));
            assert(t.last() == m.last());
            assert(n[1] == m[1]);
            assert(step(n) == k && head(n) == head(m));
            lemma_snoc_cons(head(m), e, x);
            assert((seq![head(m)] + e).last() == e.last());
        } else {
            assert(t =~= seq![]);
            assert(entries(m) =~= seq![head(m)]);
            if step(n) == 2 && k == 1 {
                assert(n[1] == x);
                assert(n.skip(2) =~= seq![]);
                assert(entries(n) =~= snoc(entries(m), x));
            } else if k == 1 {
                assert(n[1] == x);
                let y = n.skip(1);
                assert(y =~= seq![x]);
                assert(n.skip(step(n)) =~= seq![x]);
                lemma_unfold(y);
                assert(y.skip(1) =~= seq![]);
                assert(entries(y) =~= seq![head(y)]);
                assert(entries(n) =~= snoc(entries(m), x));
            } else {
                assert(n[1] == m[1]);
                let y = n.skip(2);
                assert(y =~= seq![x]);
                lemma_unfold(y);
                assert(y.skip(1) =~= seq![]);
                assert(entries(y) =~= seq![head(y)]);
                assert(entries(n) =~= snoc(entries(m), x));
            }
        }
    }
}
/// one more mark after the first
pub proof fn lemma_rest(m: Seq<Mark>, x: Mark)
    ensures
        m.len() > 0 ==> rest(m.push(x)) == rest(m).push(x) && left(m.push(x)) == left(m),
        m.len() == 0 ==> left(m).is_none() && rest(m) == m && (x is Line ==> rest(m.push(x)) == Seq::<Mark>::empty() && left(m.push(x)) == Some(x->Line_0)) && (x is Col ==> rest(m.push(x)) == m.push(x) && left(m.push(x)).is_none()),
{
    if m.len() > 0 { assert(m.push(x)[0] == m[0]); if m[0] is Line { assert(m.push(x).skip(1) =~= m.skip(1).push(x)); } }
}

// ---- trusted -------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Arena { x: u8 }
impl Arena {
    /// a copy of the slice
    #[verifier::external_body]
    pub fn alloc_column_spec<'arena>(&'arena self, column_spec: &[ColumnSpecEntry]) -> (r: &'arena [ColumnSpecEntry]) ensures r@ == column_spec@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@,
    }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_ascii_ws(b: u8) -> (r: bool) ensures r == is_ws(b) { b.is_ascii_whitespace() }

//@file crates/math-core/src/specifications.rs
//@fn parse_column_specification
//@ret r
//@vis pub
//@attr #[verifier::loop_isolation(false)]
//@subst column_spec.last_mut() ==> vx_last_mut(&mut column_spec)
//@subst ch.is_ascii_whitespace() ==> vx_ascii_ws(ch)
//@spec
    ensures match r {
        Some(a) => columns(sbytes(s@)) == Some((a.border_left, a.column_spec@)) && a.border_top.is_none() && !a.is_sub,
        None => columns(sbytes(s@)).is_none(),
    }
//@start
    let ghost u = sbytes(s@);
    proof { lemma_nil(); assert(u.take(0) =~= seq![]); }
//@forvar 0 it
//@loop 0
    invariant
        it.seq().len() == u.len(), forall|i: int| 0 <= i < u.len() ==> *(#[trigger] it.seq()[i]) == u[i],
        legal(u.take(it.index@)),
        border_left == left(marks(u.take(it.index@))),
        column_spec@ == entries(rest(marks(u.take(it.index@)))),
        has_content_column == has_col(marks(u.take(it.index@))),
//@loopstart 0
    let ghost k = it.index@;
    let ghost m = marks(u.take(k));
    proof {
        assert(u.take(k + 1).drop_last() =~= u.take(k));
        assert(u.take(k + 1).last() == u[k]);
        assert(forall|i: int| 0 <= i < k ==> #[trigger] u.take(k + 1)[i] == u.take(k)[i]);
        assert(u.take(k + 1)[k] == u[k]);
        match mark(u[k]) {
            Some(x) => {
                lemma_rest(m, x);
                lemma_snoc(rest(m), x);
                if rest(m).len() == 0 { assert(rest(m) =~= seq![]); assert(column_spec@ =~= seq![]); }
                assert(column_spec@.len() == 0 && border_left.is_none() ==> m.len() == 0);
                assert(marks(u.take(k + 1)) == m.push(x));
                assert(m.push(x)[m.len() as int] == x);
                assert(forall|i: int| 0 <= i < m.len() ==> #[trigger] m.push(x)[i] == m[i]);
                if has_col(m) { let i = choose|i: int| 0 <= i < m.len() && is_col(#[trigger] m[i]); assert(is_col(m.push(x)[i])); }
            }
            None => {}
        }
        assert(legal(u) ==> mark(u[k]).is_some() || is_ws(u[k]));
    }
//@afterloop 0
    assert(u.take(u.len() as int) =~= u);
    proof {
        if has_col(marks(u)) {
            let m = marks(u);
            let i = choose|i: int| 0 <= i < m.len() && is_col(#[trigger] m[i]);
            if m[0] is Line { assert(rest(m).len() == m.len() - 1); assert(i > 0); }
            let q = rest(m);
            lemma_snoc(q, m[0]);
        }
    }
//@endfn
} // verus!
fn main() {}
