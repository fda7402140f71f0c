//@include prelude.vx
//@include utf8.vx
//@include entities.vx
} // verus!
fn main() {}
