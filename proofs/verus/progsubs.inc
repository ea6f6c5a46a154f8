//@heap g : &mut Gr : visit on_start on_end on_func_start on_func_end on_op add_call
//@src plib crates/host/program/src/lib.rs
//@src pprog crates/host/program/src/program.rs
//@src pimp crates/host/program/src/import.rs
//@src pexp crates/host/program/src/exports.rs
//@src pop crates/host/program/src/op.rs
//@src pfun crates/host/program/src/function/mod.rs
//@src piter crates/host/program/src/function/iter.rs
//@src pvis crates/host/program/src/visitor.rs
//@src pval crates/host/program/src/validators.rs
//@src perr crates/host/program/src/error.rs
//@src gvalid crates/host/gas/src/validation.rs
//@src gerr crates/host/gas/src/errors.rs
//@src gcall crates/host/gas/src/call_graph/mod.rs
//@src gcallb crates/host/gas/src/call_graph/builder.rs
//@sub \bFuncIndex \( ==> fi(
//@sub \bFuncIndex\b ==> F
//@sub pwasm :: ==>
//@sub std :: u16 :: MAX ==> u16::MAX
//@sub IndexMap < F , \(String , String\) > ==> ImportMap
//@sub IndexMap < String , F > ==> ExportMap
//@sub IndexMap < F , Vec < Instruction > > ==> CodeMap
//@sub \.keys \(\)\.copied \(\)\.collect \(\) ==> .keys_vec()
//@sub & 'f \[Instruction\] ==> &'f Vec<Instruction>
//@sub \& \[u8\] ==> &Vec<u8>
