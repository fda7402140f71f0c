//@include prelude.vx
//@include superchar.vx
} // verus!
fn main() {}
