/// parity_wasm's instructions (without the features this workspace leaves off).
pub enum Instruction {
    Unreachable, Nop, Block(BlockType), Loop(BlockType), If(BlockType), Else, End, Br(u32),
    BrIf(u32), BrTable(Box<BrTableData>), Return, Call(u32), CallIndirect(u32, u8), Drop, Select, GetLocal(u32),
    SetLocal(u32), TeeLocal(u32), GetGlobal(u32), SetGlobal(u32), I32Load(u32, u32), I64Load(u32, u32), F32Load(u32, u32), F64Load(u32, u32),
    I32Load8S(u32, u32), I32Load8U(u32, u32), I32Load16S(u32, u32), I32Load16U(u32, u32), I64Load8S(u32, u32), I64Load8U(u32, u32), I64Load16S(u32, u32), I64Load16U(u32, u32),
    I64Load32S(u32, u32), I64Load32U(u32, u32), I32Store(u32, u32), I64Store(u32, u32), F32Store(u32, u32), F64Store(u32, u32), I32Store8(u32, u32), I32Store16(u32, u32),
    I64Store8(u32, u32), I64Store16(u32, u32), I64Store32(u32, u32), CurrentMemory(u8), GrowMemory(u8), I32Const(i32), I64Const(i64), F32Const(u32),
    F64Const(u64), I32Eqz, I32Eq, I32Ne, I32LtS, I32LtU, I32GtS, I32GtU,
    I32LeS, I32LeU, I32GeS, I32GeU, I64Eqz, I64Eq, I64Ne, I64LtS,
    I64LtU, I64GtS, I64GtU, I64LeS, I64LeU, I64GeS, I64GeU, F32Eq,
    F32Ne, F32Lt, F32Gt, F32Le, F32Ge, F64Eq, F64Ne, F64Lt,
    F64Gt, F64Le, F64Ge, I32Clz, I32Ctz, I32Popcnt, I32Add, I32Sub,
    I32Mul, I32DivS, I32DivU, I32RemS, I32RemU, I32And, I32Or, I32Xor,
    I32Shl, I32ShrS, I32ShrU, I32Rotl, I32Rotr, I64Clz, I64Ctz, I64Popcnt,
    I64Add, I64Sub, I64Mul, I64DivS, I64DivU, I64RemS, I64RemU, I64And,
    I64Or, I64Xor, I64Shl, I64ShrS, I64ShrU, I64Rotl, I64Rotr, F32Abs,
    F32Neg, F32Ceil, F32Floor, F32Trunc, F32Nearest, F32Sqrt, F32Add, F32Sub,
    F32Mul, F32Div, F32Min, F32Max, F32Copysign, F64Abs, F64Neg, F64Ceil,
    F64Floor, F64Trunc, F64Nearest, F64Sqrt, F64Add, F64Sub, F64Mul, F64Div,
    F64Min, F64Max, F64Copysign, I32WrapI64, I32TruncSF32, I32TruncUF32, I32TruncSF64, I32TruncUF64,
    I64ExtendSI32, I64ExtendUI32, I64TruncSF32, I64TruncUF32, I64TruncSF64, I64TruncUF64, F32ConvertSI32, F32ConvertUI32,
    F32ConvertSI64, F32ConvertUI64, F32DemoteF64, F64ConvertSI32, F64ConvertUI32, F64ConvertSI64, F64ConvertUI64, F64PromoteF32,
    I32ReinterpretF32, I64ReinterpretF64, F32ReinterpretI32, F64ReinterpretI64,
}
/// Instructions with a floating-point operand or result.
pub open spec fn float(i: Instruction) -> bool {
    match i {
        Instruction::F32Load(..) | Instruction::F64Load(..) | Instruction::F32Store(..) | Instruction::F64Store(..) | Instruction::F32Const(..) | Instruction::F64Const(..) |
        Instruction::F32Eq | Instruction::F32Ne | Instruction::F32Lt | Instruction::F32Gt | Instruction::F32Le | Instruction::F32Ge |
        Instruction::F64Eq | Instruction::F64Ne | Instruction::F64Lt | Instruction::F64Gt | Instruction::F64Le | Instruction::F64Ge |
        Instruction::F32Abs | Instruction::F32Neg | Instruction::F32Ceil | Instruction::F32Floor | Instruction::F32Trunc | Instruction::F32Nearest |
        Instruction::F32Sqrt | Instruction::F32Add | Instruction::F32Sub | Instruction::F32Mul | Instruction::F32Div | Instruction::F32Min |
        Instruction::F32Max | Instruction::F32Copysign | Instruction::F64Abs | Instruction::F64Neg | Instruction::F64Ceil | Instruction::F64Floor |
        Instruction::F64Trunc | Instruction::F64Nearest | Instruction::F64Sqrt | Instruction::F64Add | Instruction::F64Sub | Instruction::F64Mul |
        Instruction::F64Div | Instruction::F64Min | Instruction::F64Max | Instruction::F64Copysign | Instruction::I32TruncSF32 | Instruction::I32TruncUF32 |
        Instruction::I32TruncSF64 | Instruction::I32TruncUF64 | Instruction::I64TruncSF32 | Instruction::I64TruncUF32 | Instruction::I64TruncSF64 | Instruction::I64TruncUF64 |
        Instruction::F32ConvertSI32 | Instruction::F32ConvertUI32 | Instruction::F32ConvertSI64 | Instruction::F32ConvertUI64 | Instruction::F32DemoteF64 | Instruction::F64ConvertSI32 |
        Instruction::F64ConvertUI32 | Instruction::F64ConvertSI64 | Instruction::F64ConvertUI64 | Instruction::F64PromoteF32 | Instruction::I32ReinterpretF32 | Instruction::I64ReinterpretF64 |
        Instruction::F32ReinterpretI32 | Instruction::F64ReinterpretI64 => true,
        _ => false,
    }
}
#[derive(Clone, Copy)]
pub enum BlockType { Value(ValueType), NoResult }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ValueType { I32, I64, F32, F64 }
pub struct BrTableData { pub table: Box<[u32]>, pub default: u32 }
/// IndexMap<FuncIndex, Vec<Instruction>>
#[verifier::external_body]
pub struct CodeMap { _p: core::marker::PhantomData<F> }
impl View for CodeMap { type V = Map<F, Vec<Instruction>>; uninterp spec fn view(&self) -> Map<F, Vec<Instruction>>; }
impl CodeMap {
    #[verifier::external_body]
    pub fn new() -> (r: CodeMap) ensures r@ == Map::<F, Vec<Instruction>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &F) -> (r: Option<&Vec<Instruction>>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: F, v: Vec<Instruction>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_vec(&self) -> (r: Vec<F>) ensures r@.no_duplicates(), r@.to_set() == self@.dom() { unimplemented!() }
}
/// IndexMap<FuncIndex, (String, String)>
#[verifier::external_body]
pub struct ImportMap { _p: core::marker::PhantomData<F> }
impl View for ImportMap { type V = Map<F, (String, String)>; uninterp spec fn view(&self) -> Map<F, (String, String)>; }
impl ImportMap {
    pub open spec fn n(&self) -> nat { self@.dom().len() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: ImportMap) ensures r@ == Map::<F, (String, String)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &F) -> (r: Option<&(String, String)>) ensures r is Some == self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: F, v: (String, String)) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub struct ExportMap { _p: core::marker::PhantomData<F> }
//@item pimp struct:Imports
//@item pexp struct:Exports
//@item pprog struct:Program
//@item pop struct:Op
//@item pfun struct:Function
//@item piter struct:FuncIterator
impl Imports {
    /// The imported functions are those of the first indexes.
    pub open spec fn dense(&self) -> bool { forall|l: F| #[trigger] self.inner@.contains_key(l) <==> l.0 < self.inner.n() }
//@fn pimp Imports::new
//@contract
    ensures r.inner@ == Map::<F, (String, String)>::empty()
//@endfn
//@fn pimp Imports::with_capacity
//@local IndexMap ==> ImportMap
//@contract
    ensures r.inner@ == Map::<F, (String, String)>::empty()
//@endfn
//@fn pimp Imports::insert
//@local (\w+)\.to_string \(\) ==> text(\1)
//@contract
    ensures final(self).inner@.dom() == old(self).inner@.dom().insert(fn_index)
//@end
    proof { assert(self.inner@.dom() =~= old(self).inner@.dom().insert(fn_index)); }
//@endfn
//@fn pimp Imports::count
//@contract
    ensures r == self.inner.n()
//@endfn
}
impl Program {
    pub open spec fn imported(&self, l: F) -> bool { l.0 < self.imports.inner.n() }
    pub open spec fn code(&self, l: F) -> Seq<Instruction> { self.functions@[l]@ }
    /// Function a, at instruction i, calls the function b of the program.
    pub open spec fn call_at(&self, a: F, i: int, b: F) -> bool { 0 <= i < self.code(a).len() && self.code(a)[i] is Call && b == fs(self.code(a)[i]->Call_0) && !self.imported(b) }
    pub open spec fn calls(&self, a: F, b: F) -> bool { self.functions@.contains_key(a) && exists|i: int| #[trigger] self.call_at(a, i, b) }
//@fn pprog Program::imports
//@contract
    ensures *r == self.imports
//@endfn
//@fn pprog Program::set_imports
//@contract
    ensures *final(self) == (Program { imports: imports, ..*old(self) })
//@endfn
//@fn pprog Program::set_exports
//@contract
    ensures *final(self) == (Program { exports: exports, ..*old(self) })
//@endfn
//@fn pprog Program::is_imported
//@contract
    ensures r == self.imported(fn_index)
//@endfn
//@fn pprog Program::add_func
//@contract
    ensures final(self).functions@ == old(self).functions@.insert(fn_index, ops), final(self).imports == old(self).imports, final(self).exports == old(self).exports
//@endfn
//@fn pprog Program::get_func
//@contract
    requires self.functions@.contains_key(fn_index)
    ensures r.index == fn_index, *r.code == self.functions@[fn_index]
//@endfn
//@fn pprog Program::func_indexes
//@contract
    ensures r@.no_duplicates(), r@.to_set() == self.functions@.dom()
//@endfn
}
impl<'f> Function<'f> {
//@fn pfun Function::new
//@contract
    ensures r.index == index, r.code == body
//@endfn
//@fn pfun Function::code
//@contract
    ensures r == self.code
//@endfn
//@fn pfun Function::index
//@contract
    ensures r == self.index
//@endfn
}
impl<'f> Op<'f> {
//@fn pop Op::new
//@contract
    ensures r.raw == raw, r.offset == offset
//@endfn
//@fn pop Op::raw
//@contract
    ensures *r == *self.raw
//@endfn
//@fn pop Op::offset
//@contract
    ensures r == self.offset
//@endfn
}
impl<'f> FuncIterator<'f> {
    pub open spec fn ok(&self) -> bool { self.offset <= self.length && self.length == self.code@.len() }
    pub fn model_iter(self) -> (r: Self) ensures r == self { self }
//@fn piter FuncIterator::new
//@contract
    ensures r.ok(), r.offset == 0, r.code == func.code
//@endfn
//@fn piter Iterator@FuncIterator::next
//@local Self :: Item ==> Op<'f>
//@contract
    requires old(self).ok()
    ensures final(self).ok(), final(self).code == old(self).code,
        r is None ==> old(self).offset == old(self).code@.len() && final(self).offset == old(self).offset,
        r matches Some(op) ==> old(self).offset < old(self).code@.len() && *op.raw == old(self).code@[old(self).offset as int] && op.offset == old(self).offset && final(self).offset == old(self).offset + 1,
//@endfn
}
