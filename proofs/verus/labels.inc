/// The numbers of blocks (BlockNum).
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct L(pub usize);
/// Function indexes.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct F(pub u32);
pub fn fi(n: u32) -> (r: F) ensures r == F(n) { F(n) }
pub open spec fn fs(n: u32) -> F { F(n) }
