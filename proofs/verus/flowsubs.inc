//@src gcfg crates/host/gas/src/cfg/mod.rs
//@src gcfgb crates/host/gas/src/cfg/builder.rs
//@src gblock crates/host/gas/src/cfg/block/mod.rs
//@src gblockn crates/host/gas/src/cfg/block/block_num.rs
//@src gblockr crates/host/gas/src/cfg/block/block_ref.rs
//@src gblockb crates/host/gas/src/cfg/block/builder.rs
//@src gcont crates/host/gas/src/cfg/cont.rs
//@src gdepth crates/host/gas/src/cfg/depth.rs
//@src gedge crates/host/gas/src/cfg/edge.rs
//@src gjump crates/host/gas/src/cfg/jump/mod.rs
//@src gjumpu crates/host/gas/src/cfg/jump/unresolved.rs
//@src gjumpw crates/host/gas/src/cfg/jump/wasm.rs
//@sub \bBlockNum \( ==> L(
//@sub \bBlockNum\b ==> L
//@sub IndexSet < Edge > ==> EdgeSet
