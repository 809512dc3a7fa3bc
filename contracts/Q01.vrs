@include contracts/pep508.vrs
fn main() {}
