//@raw
} // verus!
fn main() {}
