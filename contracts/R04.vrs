@include contracts/common.vrs
@include contracts/pep440.vrs
@include contracts/ranges.vrs
@include contracts/marker.vrs
fn main() {}
