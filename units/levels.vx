// Indentation: the setting and what is specified (crates/mathml-renderer/src/ast.rs)
//@file crates/mathml-renderer/src/ast.rs
//@extract enum IndentKeyword #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@extract enum Indentation #[derive(Clone, Copy, PartialEq, Eq, Structural)]

pub open spec fn repeat(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// one level
pub open spec fn unit(ind: Indentation) -> Seq<char> {
    match ind { Indentation::Spaces(n) => repeat(' ', n as nat), Indentation::Keyword(_) => seq!['\t'] }
}
#[verifier::opaque]
pub open spec fn units(ind: Indentation, n: nat) -> Seq<char> decreases n {
    if n == 0 { seq![] } else { units(ind, (n - 1) as nat) + unit(ind) }
}
/// what goes in front of something at nesting level `n`
pub open spec fn nl(n: nat, ind: Indentation) -> Seq<char> {
    if n > 0 { seq!['\n'] + units(ind, n) } else { seq![] }
}

