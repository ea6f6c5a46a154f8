//! The library programs are written with: input data (C16), amounts (C17), containers and text (C18).
#![feature(array_from_fn)]
mod abi;
mod amount;
mod std_types;

use vcommon::Prop;

fn main() -> ! {
    vcommon::main(&[
        Prop { id: "C16", case: abi::singles, quick: 20_000, thorough: 2_000_000 },
        Prop { id: "C16", case: abi::arrays, quick: 20_000, thorough: 2_000_000 },
        Prop { id: "C16", case: abi::tuples, quick: 20_000, thorough: 2_000_000 },
        Prop { id: "C16", case: abi::exhaustive16, quick: 65_536, thorough: 65_536 },
        Prop { id: "C17", case: amount::arithmetic, quick: 200_000, thorough: 20_000_000 },
        Prop { id: "C18", case: std_types::list, quick: 10_000, thorough: 1_000_000 },
        Prop { id: "C18", case: std_types::list_wide, quick: 10_000, thorough: 1_000_000 },
        Prop { id: "C18", case: std_types::text, quick: 20_000, thorough: 2_000_000 },
        Prop { id: "C18", case: std_types::numbers, quick: 60_000, thorough: 6_000_000 },
        Prop { id: "C18", case: std_types::small_numbers, quick: 65_536, thorough: 65_536 },
    ])
}
