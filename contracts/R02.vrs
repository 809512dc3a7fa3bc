@include contracts/resolve.vrs
fn main() {}
