// Line breaks and indentation (crates/mathml-renderer/src/fmt.rs)
//@file crates/mathml-renderer/src/ast.rs
//@extract enum IndentKeyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Indentation #[derive(Clone, Copy, PartialEq, Eq, Structural)]

pub open spec fn repeat(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// one level
pub open spec fn unit(ind: Indentation) -> Seq<char> {
    match ind { Indentation::Spaces(n) => repeat(' ', n as nat), Indentation::Keyword(_) => seq!['\t'] }
}
#[verifier::opaque]
pub open spec fn units(ind: Indentation, n: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { units(ind, (n - 1) as nat) + unit(ind) }
}
/// what goes in front of something at nesting level `n`
pub open spec fn nl(n: nat, ind: Indentation) -> Seq<char> {
    if n > 0 { seq!['\n'] + units(ind, n) } else { seq![] }
}

//@file crates/mathml-renderer/src/fmt.rs
//@fn new_line_and_indent
//@vis pub
//@spec
    ensures final(s)@ == old(s)@ + nl(indent_num as nat, indentation)
//@start
    let ghost t = s@;
    proof { reveal_with_fuel(units, 1); }
//@forvar 0 it
//@loop 0
    invariant
        s@ == t + (if indent_num > 0 { seq!['\n'] } else { seq![] }) + units(indentation, it.index@ as nat),
//@loopstart 0
    let ghost b = s@;
    let ghost k = it.index@;
    proof { reveal_with_fuel(units, 2); }
//@forvar 1 jt
//@loop 1
    invariant s@ == b + repeat(' ', jt.index@ as nat),
//@loopstart 1
    proof { assert(repeat(' ', jt.index@ as nat).push(' ') =~= repeat(' ', (jt.index@ + 1) as nat)); }
//@loopend 1
    assert(s@ =~= b + repeat(' ', (jt.index@ + 1) as nat));
//@loopend 0
    assert(s@ =~= b + unit(indentation));
    assert(s@ =~= t + (if indent_num > 0 { seq!['\n'] } else { seq![] }) + units(indentation, (k + 1) as nat));
//@endfn
