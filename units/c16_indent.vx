//@include prelude.vx
//@include fmt.vx
} // verus!
fn main() {}
