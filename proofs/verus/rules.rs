use vstd::prelude::*;
verus! {
//@include iter.inc
//@include progsubs.inc
//@src rtm crates/host/runtime/src/runtime/runtime.rs
//@sub < T = FuncIndex > where T : NodeLabel , ==>
//@sub < T = F > where T : NodeLabel , ==>
//@sub GraphCycles < T > ==> GraphCycles
//@sub func : T \b ==> func: L
//@sub OpcodeValidator < F > ==> OpcodeValidator
//@sub opcode_validator : F \b ==> opcode_validator: Check
//@include graph.inc
/// The labels of nodes here: the functions' indexes.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct L(pub u32);
/// Function indexes are labels of the call graph.
pub type F = L;
pub fn fi(n: u32) -> (r: F) ensures r == L(n) { L(n) }
pub open spec fn fs(n: u32) -> F { L(n) }
//@include program.inc
//@include calls.inc
//@include chains.inc
//@item gerr enum:FixedGasError
//@item perr enum:ProgramError
//@item gvalid struct:ProgramValidator
// ---- the rules
/// No loops, no indirect calls; a called function's index is a 16 bit number.
pub open spec fn rule(i: Instruction) -> bool { !(i is Loop) && !(i is CallIndirect) && (i is Call ==> i->Call_0 <= 65535) }
/// The call to the function l itself.
pub open spec fn selfcall(p: Program, i: Instruction, l: L) -> bool { i is Call && L(i->Call_0) == l && !p.imported(l) }
pub open spec fn obeys(p: Program) -> bool { forall|a: L, i: int| p.functions@.contains_key(a) && 0 <= i < p.code(a).len() ==> rule(#[trigger] p.code(a)[i]) }
pub proof fn selfcall_is_recursion(p: Program, a: L, i: int)
    requires p.functions@.contains_key(a), 0 <= i < p.code(a).len(), selfcall(p, p.code(a)[i], a)
    ensures recursive(p)
{
    assert(p.call_at(a, i, a));
    let w = seq![a, a];
    assert forall|k: int| 0 <= k < w.len() - 1 implies p.calls(#[trigger] w[k], w[k + 1]) by { assert(w[k] == a && w[k + 1] == a); }
    assert(calls_along(p, w));
}
impl ProgramValidator {
    pub open spec fn ok(&self, n: Map<L, Node>) -> bool { of(self.builder.inner.nodes@, n) }
//@fn gvalid ProgramValidator::new
//@contract
    ensures r.builder.inner.nodes@ == Map::<L, NodeRef>::empty(), r.current_func is None
//@endfn
//@fn gvalid ProgramValidator::current_func
//@contract
    requires self.current_func is Some
    ensures r == self.current_func->Some_0
//@endfn
//@fn gvalid ProgramValidator::add_call heap
//@contract
    requires old(self).ok(old(g).nodes())
    ensures r is Ok <==> origin != target, final(self).current_func == old(self).current_func,
        r is Ok ==> final(self).ok(final(g).nodes()) && joined(final(g).nodes(), old(g).nodes(), origin, target),
//@endfn
//@fn gvalid ProgramValidator::validate_func_index
//@contract
    ensures r is Ok <==> func <= 65535
//@endfn
//@fn gvalid ProgramVisitor@ProgramValidator::on_start heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> FixedGasError
//@contract
    ensures r is Ok, *final(self) == *old(self), *final(g) == *old(g)
//@endfn
//@fn gvalid ProgramVisitor@ProgramValidator::on_end heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> FixedGasError
//@contract
    requires self.ok(old(g).nodes())
    ensures r is Ok <==> !cyclic(old(g).nodes())
//@endfn
//@fn gvalid ProgramVisitor@ProgramValidator::on_func_start heap
//@local Self :: Error ==> FixedGasError
//@contract
    requires old(self).ok(old(g).nodes())
    ensures r is Ok, final(self).ok(final(g).nodes()), final(self).current_func == Some(fn_index),
        forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y),
//@endfn
//@fn gvalid ProgramVisitor@ProgramValidator::on_func_end heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> FixedGasError
//@contract
    requires old(self).ok(old(g).nodes())
    ensures r is Ok, final(self).ok(final(g).nodes()), final(g).nodes() == old(g).nodes(),
//@endfn
//@fn gvalid ProgramVisitor@ProgramValidator::on_op heap
//@local Self :: Error ==> FixedGasError
//@contract
    requires old(self).ok(old(g).nodes()), old(self).current_func is Some
    ensures r is Ok <==> rule(*op.raw) && !selfcall(*program, *op.raw, old(self).current_func->Some_0), final(self).current_func == old(self).current_func,
        r is Ok ==> final(self).ok(final(g).nodes()),
        r is Ok ==> forall|x: L, y: L| #[trigger] arc(final(g).nodes(), x, y) <==> arc(old(g).nodes(), x, y)
            || (x == old(self).current_func->Some_0 && *op.raw is Call && y == L((*op.raw)->Call_0) && !program.imported(y)),
//@endfn
//@fn pvis ProgramVisitor::visit heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> FixedGasError
//@contract
    requires self.ok(old(g).nodes()), old(g).nodes() == Map::<L, Node>::empty()
    ensures r is Ok <==> obeys(*program) && !recursive(*program)
//@before 0
    let ghost fs = func_index@;
    proof {
        assert(fs.to_set() == program.functions@.dom());
        assert forall|j: int| 0 <= j < fs.len() implies program.functions@.contains_key(#[trigger] fs[j]) by { assert(fs.to_set().contains(fs[j])); }
        assert forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() && selfcall(*program, #[trigger] program.code(a)[i], a) implies recursive(*program) by { selfcall_is_recursion(*program, a, i); }
    }
//@inv 0
    invariant
        __it0.v@.len() == fs.len(), 0 <= __it0.i@ <= fs.len(), forall|j: int| 0 <= j < fs.len() ==> *(#[trigger] __it0.v@[j]) == fs[j],
        fs.to_set() == program.functions@.dom(), forall|j: int| 0 <= j < fs.len() ==> program.functions@.contains_key(#[trigger] fs[j]),
        forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() && selfcall(*program, #[trigger] program.code(a)[i], a) ==> recursive(*program),
        this.ok(g.nodes()), seen(*program, g.nodes(), fs, __it0.i@, 0),
        forall|j: int, i: int| 0 <= j < __it0.i@ && 0 <= i < program.code(fs[j]).len() ==> rule(#[trigger] program.code(fs[j])[i]),
    ensures __it0.i@ == fs.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@;
//@inv 1
    invariant
        __it0.i@ == k + 1, 0 <= k < fs.len(), fn_index == fs[k], program.functions@.contains_key(fs[k]),
        forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() && selfcall(*program, #[trigger] program.code(a)[i], a) ==> recursive(*program),
        __it1.ok(), __it1.code@ == program.code(fs[k]),
        this.ok(g.nodes()), this.current_func == Some(fs[k]), seen(*program, g.nodes(), fs, k, __it1.offset as int),
        forall|i: int| 0 <= i < __it1.offset ==> rule(#[trigger] program.code(fs[k])[i]),
    ensures __it1.offset == program.code(fs[k]).len()
    decreases __it1.code@.len() - __it1.offset
//@top 1
    let ghost n0 = g.nodes(); let ghost o = __it1.offset as int;
//@bot 1
    proof {
        assert forall|x: L, y: L| #[trigger] arc(g.nodes(), x, y) <==> arc(n0, x, y) || (x == fs[k] && program.call_at(fs[k], o, y)) by {}
        seen_op(*program, n0, g.nodes(), fs, k, o);
    }
//@bot 0
    proof { seen_next(*program, g.nodes(), fs, k); }
//@after 0
    proof {
        seen_all(*program, g.nodes(), fs); cycles_are_recursion(*program, g.nodes());
        assert forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() implies rule(#[trigger] program.code(a)[i]) by {
            assert(fs.to_set().contains(a)); let j = choose|j: int| 0 <= j < fs.len() && fs[j] == a; assert(program.code(fs[j])[i] == program.code(a)[i]);
        }
    }
//@endfn
}
//@fn gvalid validate_wasm
//@local & program ==> program
//@contract
    ensures r is Ok <==> obeys(*program) && !recursive(*program)
//@begin
    let mut gr = Gr::fresh(); let g = &mut gr;
//@endfn
// ---- no floats
//@fn plib validate_opcode
//@contract
    ensures r is Ok <==> !float(*op.raw)
//@endfn
/// What `validate_no_floats` hands to the OpcodeValidator: the function validate_opcode.
#[derive(Clone, Copy)]
pub struct Check;
//@item pval struct:OpcodeValidator
pub open spec fn floatless(p: Program) -> bool { forall|a: L, i: int| p.functions@.contains_key(a) && 0 <= i < p.code(a).len() ==> !float(#[trigger] p.code(a)[i]) }
impl OpcodeValidator {
//@fn pval OpcodeValidator::new
//@local < E > ==>
//@local where F : Fn \(& Op\) -> Result < \(\) , E > , ==>
//@local f : F ==> f: Check
//@contract
//@endfn
//@fn pval ProgramVisitor@OpcodeValidator::on_op heap
//@local Self :: Error ==> ProgramError
//@local \(self\.opcode_validator\) \( op \) ==> validate_opcode(op)
//@contract
    ensures r is Ok <==> !float(*op.raw)
//@endfn
//@fn pval ProgramVisitor@OpcodeValidator::on_end heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok
//@endfn
//@fn pvis ProgramVisitor::on_start heap
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok
//@endfn
//@fn pvis ProgramVisitor::on_func_start heap
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok
//@endfn
//@fn pvis ProgramVisitor::on_func_end heap
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok
//@endfn
//@fn pvis ProgramVisitor::visit heap
//@local Self :: Output ==> ()
//@local Self :: Error ==> ProgramError
//@contract
    ensures r is Ok <==> floatless(*program)
//@before 0
    let ghost fs = func_index@;
    proof {
        assert(fs.to_set() == program.functions@.dom());
        assert forall|j: int| 0 <= j < fs.len() implies program.functions@.contains_key(#[trigger] fs[j]) by { assert(fs.to_set().contains(fs[j])); }
    }
//@inv 0
    invariant
        __it0.v@.len() == fs.len(), 0 <= __it0.i@ <= fs.len(), forall|j: int| 0 <= j < fs.len() ==> *(#[trigger] __it0.v@[j]) == fs[j],
        fs.to_set() == program.functions@.dom(), forall|j: int| 0 <= j < fs.len() ==> program.functions@.contains_key(#[trigger] fs[j]),
        forall|j: int, i: int| 0 <= j < __it0.i@ && 0 <= i < program.code(fs[j]).len() ==> !float(#[trigger] program.code(fs[j])[i]),
    ensures __it0.i@ == fs.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@;
//@inv 1
    invariant
        __it0.i@ == k + 1, 0 <= k < fs.len(), fn_index == fs[k], program.functions@.contains_key(fs[k]),
        __it1.ok(), __it1.code@ == program.code(fs[k]),
        forall|i: int| 0 <= i < __it1.offset ==> !float(#[trigger] program.code(fs[k])[i]),
    ensures __it1.offset == program.code(fs[k]).len()
    decreases __it1.code@.len() - __it1.offset
//@after 0
    proof {
        assert forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() implies !float(#[trigger] program.code(a)[i]) by {
            assert(fs.to_set().contains(a)); let j = choose|j: int| 0 <= j < fs.len() && fs[j] == a; assert(program.code(fs[j])[i] == program.code(a)[i]);
        }
    }
//@endfn
}
//@fn plib validate_no_floats
//@local new \( validate_opcode \) ==> new(Check)
//@contract
    ensures r is Ok <==> floatless(*program)
//@begin
    let mut gr = Gr::fresh(); let g = &mut gr;
//@endfn
// ---- reading a module
#[verifier::external_body]
pub fn rt_panic<T>() -> (r: T) requires false { unimplemented!() }
/// parity_wasm's Module: what its sections hold.
pub struct Module { pub start: Option<u32>, pub code: Option<CodeSection>, pub funs: Option<FunctionSection>, pub types: Option<TypeSection>, pub exports: Option<ExportSection>, pub imports: Option<ImportSection> }
pub struct CodeSection { pub bodies: Vec<FuncBody> }
pub struct FuncBody { pub code: Instructions }
pub struct Instructions { pub elements: Vec<Instruction> }
pub struct FunctionSection { pub entries: Vec<Func> }
pub struct Func { pub type_ref: u32 }
pub struct TypeSection { pub types: Vec<Type> }
pub enum Type { Function(FunctionType) }
pub struct FunctionType { pub params: Vec<ValueType>, pub results: Vec<ValueType> }
pub struct ExportSection { pub entries: Vec<ExportEntry> }
/// The names an export is matched with, and any other.
#[derive(Clone, Copy)]
pub enum Name { SvmAlloc, SvmVerify, Other }
pub struct ExportEntry { pub field: Name, pub internal: Internal }
pub enum Internal { Function(u32), Table(u32), Memory(u32), Global(u32) }
pub struct ImportSection { pub entries: Vec<ImportEntry> }
pub struct ImportEntry { pub module: String, pub field: String, pub external: External }
pub enum External { Function(u32), Table, Memory, Global }
pub enum ImportCountType { Function, Global, Table, Memory }
pub open spec fn fn_imports(s: Seq<ImportEntry>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { fn_imports(s.drop_last()) + if s.last().external is Function { 1nat } else { 0 } }
}
pub proof fn fn_imports_grow(s: Seq<ImportEntry>, k: int)
    requires 0 <= k <= s.len()
    ensures fn_imports(s.take(k)) <= fn_imports(s)
    decreases s.len() - k
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        fn_imports_grow(s, k + 1);
    } else { assert(s.take(k) =~= s); }
}
impl Module {
    /// Functions imported.
    pub open spec fn imported(&self) -> nat { if self.imports is Some { fn_imports(self.imports->Some_0.entries@) } else { 0 } }
    pub open spec fn bodies_(&self) -> Seq<FuncBody> { self.code->Some_0.bodies@ }
    pub fn start_section(&self) -> (r: Option<u32>) ensures r == self.start { self.start }
    #[verifier::external_body]
    pub fn code_section(&self) -> (r: Option<&CodeSection>) ensures r is Some == self.code is Some, r is Some ==> *r->Some_0 == self.code->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn function_section(&self) -> (r: Option<&FunctionSection>) ensures r is Some == self.funs is Some, r is Some ==> *r->Some_0 == self.funs->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn type_section(&self) -> (r: Option<&TypeSection>) ensures r is Some == self.types is Some, r is Some ==> *r->Some_0 == self.types->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn export_section(&self) -> (r: Option<&ExportSection>) ensures r is Some == self.exports is Some, r is Some ==> *r->Some_0 == self.exports->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn import_section(&self) -> (r: Option<&ImportSection>) ensures r is Some == self.imports is Some, r is Some ==> *r->Some_0 == self.imports->Some_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn import_count(&self, t: ImportCountType) -> (r: usize) ensures t is Function ==> r == self.imported() { unimplemented!() }
}
impl CodeSection {
    /// A body takes at least two bytes of the module.
    #[verifier::external_body]
    pub fn bodies(&self) -> (r: &[FuncBody]) ensures r@ == self.bodies@, r@.len() < 0x8000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: CodeSection) ensures r == *self { unimplemented!() }
}
impl FuncBody { pub fn code(&self) -> (r: &Instructions) ensures *r == self.code { &self.code } }
impl Instructions {
    #[verifier::external_body]
    pub fn elements_vec(&self) -> (r: Vec<Instruction>) ensures r@ == self.elements@ { unimplemented!() }
}
impl FunctionSection {
    pub fn with_entries(entries: Vec<Func>) -> (r: Self) ensures r.entries == entries { FunctionSection { entries } }
    pub fn entries(&self) -> (r: &[Func]) ensures r@ == self.entries@ { self.entries.as_slice() }
}
impl Func { pub fn type_ref(&self) -> (r: u32) ensures r == self.type_ref { self.type_ref } }
impl TypeSection {
    pub fn with_types(types: Vec<Type>) -> (r: Self) ensures r.types == types { TypeSection { types } }
    pub fn types(&self) -> (r: &[Type]) ensures r@ == self.types@ { self.types.as_slice() }
}
impl FunctionType {
    pub fn params(&self) -> (r: &[ValueType]) ensures r@ == self.params@ { self.params.as_slice() }
    pub fn results(&self) -> (r: &[ValueType]) ensures r@ == self.results@ { self.results.as_slice() }
}
impl ExportSection {
    pub fn with_entries(entries: Vec<ExportEntry>) -> (r: Self) ensures r.entries == entries { ExportSection { entries } }
    pub fn entries(&self) -> (r: &[ExportEntry]) ensures r@ == self.entries@ { self.entries.as_slice() }
}
impl ExportEntry {
    pub fn field(&self) -> (r: Name) ensures r == self.field { self.field }
    pub fn internal(&self) -> (r: &Internal) ensures *r == self.internal { &self.internal }
}
impl ImportSection { pub fn entries(&self) -> (r: &[ImportEntry]) ensures r@ == self.entries@ { self.entries.as_slice() } }
impl ImportEntry {
    pub fn module(&self) -> (r: &str) { self.module.as_str() }
    pub fn field(&self) -> (r: &str) { self.field.as_str() }
    pub fn external(&self) -> (r: &External) ensures *r == self.external { &self.external }
}
/// Slices are equal when their elements are.
#[verifier::external_body]
pub fn same_types(a: &[ValueType], b: &[ValueType]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// What the bytes of a module hold, where they are one.
pub uninterp spec fn module_of(bytes: Seq<u8>) -> Option<Module>;
#[verifier::external_body]
pub fn deserialize_buffer(bytes: &Vec<u8>) -> (r: Result<Module, ()>) ensures r is Ok == module_of(bytes@) is Some, r is Ok ==> r->Ok_0 == module_of(bytes@)->Some_0 { unimplemented!() }
pub open spec fn funs_of(m: Module) -> Seq<Func> { if m.funs is Some { m.funs->Some_0.entries@ } else { Seq::empty() } }
pub open spec fn types_of(m: Module) -> Seq<Type> { if m.types is Some { m.types->Some_0.types@ } else { Seq::empty() } }
pub open spec fn exports_of(m: Module) -> Seq<ExportEntry> { if m.exports is Some { m.exports->Some_0.entries@ } else { Seq::empty() } }
/// The export is a function the program defines, of these types.
pub open spec fn signed(e: ExportEntry, imported: int, funs: Seq<Func>, types: Seq<Type>, ps: Seq<ValueType>, rs: Seq<ValueType>) -> bool {
    &&& e.internal is Function && imported <= e.internal->Function_0 < imported + funs.len()
    &&& { let t = funs[e.internal->Function_0 - imported].type_ref as int; t < types.len() && types[t]->Function_0.params@ == ps && types[t]->Function_0.results@ == rs }
}
pub open spec fn alloc_signed(m: Module, e: ExportEntry) -> bool { signed(e, m.imported() as int, funs_of(m), types_of(m), seq![ValueType::I32], seq![ValueType::I32]) }
pub open spec fn verify_signed(m: Module, e: ExportEntry) -> bool { signed(e, m.imported() as int, funs_of(m), types_of(m), seq![], seq![ValueType::I32]) }
/// svm_alloc and svm_verify are exported, as functions of the program with the types asked for.
pub open spec fn exports_required(m: Module) -> bool {
    &&& exists|i: int| 0 <= i < exports_of(m).len() && (#[trigger] exports_of(m)[i]).field is SvmAlloc
    &&& exists|i: int| 0 <= i < exports_of(m).len() && (#[trigger] exports_of(m)[i]).field is SvmVerify
    &&& forall|i: int| 0 <= i < exports_of(m).len() ==> export_fits(m, #[trigger] exports_of(m)[i])
}
pub open spec fn export_fits(m: Module, e: ExportEntry) -> bool {
    (e.field is SvmAlloc ==> alloc_signed(m, e)) && (e.field is SvmVerify ==> verify_signed(m, e))
}
//@fn pprog export_func_signature
//@contract
    ensures r is Ok <==> entry.internal is Function && import_count <= entry.internal->Function_0 < import_count + module_functions@.len() && module_functions@[entry.internal->Function_0 - import_count].type_ref < module_types@.len(),
        r is Ok ==> *r->Ok_0 == module_types@[module_functions@[entry.internal->Function_0 - import_count].type_ref as int],
//@endfn
//@fn pprog validate_func_signature
//@local (\w+\.\w+ \(\)) == (expected_\w+) ==> same_types(\1, \2)
//@local func_name\.to_string \(\) ==> text(func_name)
//@local # \[allow \(irrefutable_let_patterns\)\] if let Type :: Function \(f\) = func_sig \{ ==> if let Type::Function(f) = func_sig {
//@contract
    ensures r is Ok <==> signed(*export, import_count as int, module_funcs@, module_types@, expected_params@, expected_results@)
//@endfn
//@fn pprog validate_export_alloc
//@contract
    ensures r is Ok <==> signed(*export, import_count as int, module_funcs@, module_types@, seq![ValueType::I32], seq![ValueType::I32])
//@end
    proof { assert([ValueType::I32]@ =~= seq![ValueType::I32]); let e: [ValueType; 0] = []; assert(e@ =~= Seq::<ValueType>::empty()); }
//@endfn
//@fn pprog svm_verify_validate
//@contract
    ensures r is Ok <==> signed(*export, import_count as int, module_funcs@, module_types@, seq![], seq![ValueType::I32])
//@end
    proof { assert([ValueType::I32]@ =~= seq![ValueType::I32]); let e: [ValueType; 0] = []; assert(e@ =~= Seq::<ValueType>::empty()); }
//@endfn
//@fn pprog module_functions
//@contract
    ensures r@ == if module.funs is Some { module.funs->Some_0.entries@ } else { default.entries@ }
//@endfn
//@fn pprog module_types
//@contract
    ensures r@ == if module.types is Some { module.types->Some_0.types@ } else { default.types@ }
//@endfn
//@fn pprog module_exports
//@contract
    ensures r@ == if module.exports is Some { module.exports->Some_0.entries@ } else { default.entries@ }
//@endfn
//@fn pprog module_functions_import_count
//@contract
    ensures r == module.imported()
//@endfn
//@fn pprog module_validate_exports
//@local "svm_alloc" => ==> Name::SvmAlloc =>
//@local "svm_verify" => ==> Name::SvmVerify =>
//@local ("\w+")\.to_string \(\) ==> text(\1)
//@contract
    ensures r is Ok <==> exports_required(*module)
//@before 0
    let ghost es = module_exports@; let ghost m = *module;
    proof { assert(es =~= exports_of(m)); assert(module_functions@ =~= funs_of(m)); assert(module_types@ =~= types_of(m)); }
//@inv 0
    invariant
        __it0.v@.len() == es.len(), 0 <= __it0.i@ <= es.len(), forall|j: int| 0 <= j < es.len() ==> *(#[trigger] __it0.v@[j]) == es[j],
        es == exports_of(m), module_functions@ == funs_of(m), module_types@ == types_of(m), import_count == m.imported(), m == *module,
        seen_alloc <==> exists|i: int| 0 <= i < __it0.i@ && (#[trigger] es[i]).field is SvmAlloc,
        seen_verify <==> exists|i: int| 0 <= i < __it0.i@ && (#[trigger] es[i]).field is SvmVerify,
        forall|i: int| 0 <= i < __it0.i@ ==> export_fits(m, #[trigger] es[i]),
    ensures __it0.i@ == es.len()
    decreases __it0.v@.len() - __it0.i@
//@endfn
//@fn pimp module_import_count
//@contract
    ensures r is Ok <==> module.imported() <= 65535, r is Ok ==> r->Ok_0 == module.imported()
//@endfn
impl Imports {
//@fn pimp Imports::read
//@contract
    ensures r is Ok <==> module.imported() <= 65535, r is Ok ==> r->Ok_0.inner.n() == module.imported() && r->Ok_0.dense()
//@begin
    let ghost m = *module;
//@before 0
    let ghost es = import_section.entries@;
    proof { assert(es.take(0) =~= Seq::<ImportEntry>::empty()); assert(fn_imports(es.take(0)) == 0); }
//@inv 0
    invariant
        __it0.v@.len() == es.len(), 0 <= __it0.i@ <= es.len(), forall|j: int| 0 <= j < es.len() ==> *(#[trigger] __it0.v@[j]) == es[j],
        fn_imports(es) <= 65535, offset == fn_imports(es.take(__it0.i@)), imports.inner.n() == offset, imports.dense(),
    ensures __it0.i@ == es.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@; let ghost was = imports;
    proof { if k < es.len() { assert(es.take(k + 1).drop_last() =~= es.take(k)); assert(es.take(k + 1).last() == es[k]); fn_imports_grow(es, k + 1); } }
//@bot 0
    proof {
        if es[k].external is Function {
            assert(!was.inner@.contains_key(L(was.inner.n() as u32)));
            assert(imports.inner.n() == was.inner.n() + 1);
            assert forall|l: L| #[trigger] imports.inner@.contains_key(l) <==> l.0 < imports.inner.n() by {
                assert(imports.inner@.dom().contains(l) <==> was.inner@.dom().contains(l) || l == L(was.inner.n() as u32));
                assert(was.inner@.contains_key(l) <==> l.0 < was.inner.n());
            }
        }
    }
//@after 0
    proof { assert(es.take(es.len() as int) =~= es); }
//@endfn
}
impl Exports {
    #[verifier::external_body]
    pub fn read(module: &Module) -> (r: Result<Exports, ProgramError>) ensures r is Ok { unimplemented!() }
}
//@fn pprog read_module
//@local parity_wasm :: deserialize_buffer ==> deserialize_buffer
//@contract
    ensures r is Ok <==> module_of(wasm@) is Some, r is Ok ==> r->Ok_0 == module_of(wasm@)->Some_0
//@endfn
//@fn pprog read_code
//@contract
    ensures r is Ok <==> module.code is Some, r is Ok ==> r->Ok_0 == module.code->Some_0
//@endfn
//@item pprog struct:Counter
impl Counter {
    /// The derived Default.
    pub fn default() -> (r: Counter) ensures r.0 == 0 { Counter(0) }
//@fn pprog ProgramVisitor@Counter::on_func_end heap
//@local Self :: Error ==> ()
//@contract
    requires old(self).0 < u64::MAX
    ensures r is Ok, final(self).0 == old(self).0 + 1
//@endfn
//@fn pprog ProgramVisitor@Counter::on_end heap
//@local Self :: Output ==> u64
//@local Self :: Error ==> ()
//@contract
    ensures r == Ok::<u64, ()>(self.0)
//@endfn
//@fn pvis ProgramVisitor::on_start heap
//@local Self :: Error ==> ()
//@contract
    ensures r is Ok, *final(self) == *old(self)
//@endfn
//@fn pvis ProgramVisitor::on_func_start heap
//@local Self :: Error ==> ()
//@contract
    ensures r is Ok, *final(self) == *old(self)
//@endfn
//@fn pvis ProgramVisitor::on_op heap
//@local Self :: Error ==> ()
//@contract
    ensures r is Ok, *final(self) == *old(self)
//@endfn
//@fn pvis ProgramVisitor::visit heap
//@local Self :: Output ==> u64
//@local Self :: Error ==> ()
//@contract
    requires self.0 == 0, program.functions@.dom().len() <= u64::MAX
    ensures r is Ok, r->Ok_0 == program.functions@.dom().len()
//@before 0
    let ghost fs = func_index@;
    proof {
        assert(fs.to_set() == program.functions@.dom());
        fs.unique_seq_to_set();
        assert forall|j: int| 0 <= j < fs.len() implies program.functions@.contains_key(#[trigger] fs[j]) by { assert(fs.to_set().contains(fs[j])); }
    }
//@inv 0
    invariant
        __it0.v@.len() == fs.len(), 0 <= __it0.i@ <= fs.len(), forall|j: int| 0 <= j < fs.len() ==> *(#[trigger] __it0.v@[j]) == fs[j],
        forall|j: int| 0 <= j < fs.len() ==> program.functions@.contains_key(#[trigger] fs[j]),
        this.0 == __it0.i@, fs.len() <= u64::MAX,
    ensures __it0.i@ == fs.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@;
//@inv 1
    invariant
        __it1.ok(), this.0 == k,
    ensures this.0 == k
    decreases __it1.code@.len() - __it1.offset
//@endfn
}
//@fn pprog count_functions_in_program
//@contract
    requires program.functions@.dom().len() <= u64::MAX
    ensures r == program.functions@.dom().len()
//@begin
    let mut gr = Gr::fresh(); let g = &mut gr;
//@endfn
/// The functions the module defines, numbered after those it imports.
pub open spec fn numbered(fs: Map<L, Vec<Instruction>>, bodies: Seq<FuncBody>, imported: int, k: int) -> bool {
    &&& forall|l: L| #[trigger] fs.contains_key(l) <==> imported <= l.0 < imported + k
    &&& forall|l: L| #[trigger] fs.contains_key(l) ==> fs[l]@ == bodies[l.0 - imported].code.elements@
    &&& fs.dom().len() == k
}
pub open spec fn body_floatless(b: FuncBody) -> bool { forall|i: int| 0 <= i < b.code.elements@.len() ==> !float(#[trigger] b.code.elements@[i]) }
/// A module `Program::new` takes.
pub open spec fn acceptable(m: Module, with_exports: bool) -> bool {
    &&& m.start is None && m.code is Some && m.imported() <= 65535 && m.bodies_().len() <= 65535
    &&& forall|k: int| 0 <= k < m.bodies_().len() ==> body_floatless(#[trigger] m.bodies_()[k])
    &&& with_exports ==> exports_required(m)
}
impl Program {
    /// The derived Default.
    #[verifier::external_body]
    pub fn default() -> (r: Program) ensures r.functions@ == Map::<L, Vec<Instruction>>::empty() { unimplemented!() }
//@fn pprog Program::new
//@local \.elements \(\)\.to_vec \(\) ==> .elements_vec()
//@contract
    ensures r is Ok <==> module_of(wasm_module@) is Some && acceptable(module_of(wasm_module@)->Some_0, validate_exports),
        r is Ok ==> { let m = module_of(wasm_module@)->Some_0; let p = r->Ok_0;
            numbered(p.functions@, m.bodies_(), m.imported() as int, m.bodies_().len() as int) && p.imports.inner.n() == m.imported() && p.imports.dense() && floatless(p) && program_of(m, p) },
//@before 0
    let ghost m = module; let ghost bs = m.bodies_(); let ghost c = m.imported() as int;
    proof { assert(program.functions@.dom() =~= Set::<L>::empty()); }
//@inv 0
    invariant
        __it0.v@.len() == bs.len(), bs.len() < 0x8000_0000, 0 <= __it0.i@ <= bs.len(), forall|j: int| 0 <= j < bs.len() ==> *(#[trigger] __it0.v@[j]) == bs[j],
        imports.inner.n() == c, 0 <= c <= 65535,
        numbered(program.functions@, bs, c, __it0.i@),
    ensures __it0.i@ == bs.len()
    decreases __it0.v@.len() - __it0.i@
//@top 0
    let ghost k = __it0.i@; let ghost was = program.functions@;
//@bot 0
    proof {
        let l = L((k + c) as u32);
        assert(!was.contains_key(l));
        assert(program.functions@.dom() =~= was.dom().insert(l));
        assert(numbered(program.functions@, bs, c, k + 1));
    }
//@after 0
    proof {
        assert(floatless(program) ==> forall|k: int| 0 <= k < bs.len() ==> body_floatless(#[trigger] bs[k])) by {
            if floatless(program) {
                assert forall|k: int, i: int| 0 <= k < bs.len() && 0 <= i < bs[k].code.elements@.len() implies !float(#[trigger] bs[k].code.elements@[i]) by {
                    let l = L((k + c) as u32); assert(program.functions@.contains_key(l)); assert(program.code(l)[i] == bs[k].code.elements@[i]);
                }
            }
        }
        assert((forall|k: int| 0 <= k < bs.len() ==> body_floatless(#[trigger] bs[k])) ==> floatless(program)) by {
            if forall|k: int| 0 <= k < bs.len() ==> body_floatless(#[trigger] bs[k]) {
                assert forall|a: L, i: int| program.functions@.contains_key(a) && 0 <= i < program.code(a).len() implies !float(#[trigger] program.code(a)[i]) by {
                    assert(body_floatless(bs[a.0 - c])); assert(program.code(a)[i] == bs[a.0 - c].code.elements@[i]);
                }
            }
        }
    }
    let ghost mid = program;
    proof { assert forall|p: Program| #[trigger] p.functions@ == mid.functions@ implies floatless(p) == floatless(mid) by {
        if floatless(p) { assert forall|a: L, i: int| mid.functions@.contains_key(a) && 0 <= i < mid.code(a).len() implies !float(#[trigger] mid.code(a)[i]) by { assert(mid.code(a)[i] == p.code(a)[i]); } }
        if floatless(mid) { assert forall|a: L, i: int| p.functions@.contains_key(a) && 0 <= i < p.code(a).len() implies !float(#[trigger] p.code(a)[i]) by { assert(mid.code(a)[i] == p.code(a)[i]); } }
    } }
//@endfn
}
// ---- a deploy message
/// The program read from the module (the names of imports and exports aside).
pub open spec fn program_of(m: Module, p: Program) -> bool { numbered(p.functions@, m.bodies_(), m.imported() as int, m.bodies_().len() as int) && p.imports.inner.n() == m.imported() }
pub proof fn same_calls(m: Module, p: Program, q: Program)
    requires program_of(m, p), program_of(m, q)
    ensures obeys(p) ==> obeys(q), recursive(p) ==> recursive(q)
{
    assert forall|a: L| #[trigger] p.functions@.contains_key(a) implies q.functions@.contains_key(a) && p.code(a) == q.code(a) by {}
    assert forall|a: L| #[trigger] q.functions@.contains_key(a) implies p.functions@.contains_key(a) && p.code(a) == q.code(a) by {}
    if obeys(p) {
        assert forall|a: L, i: int| q.functions@.contains_key(a) && 0 <= i < q.code(a).len() implies rule(#[trigger] q.code(a)[i]) by { assert(p.code(a)[i] == q.code(a)[i]); }
    }
    if recursive(p) {
        let w = choose|w: Seq<L>| #[trigger] calls_along(p, w) && w.len() >= 2 && w[0] == w[w.len() - 1];
        assert forall|i: int| 0 <= i < w.len() - 1 implies q.calls(#[trigger] w[i], w[i + 1]) by {
            assert(p.calls(w[i], w[i + 1]));
            let k = choose|k: int| #[trigger] p.call_at(w[i], k, w[i + 1]);
            assert(q.call_at(w[i], k, w[i + 1]));
        }
        assert(calls_along(q, w));
    }
}
/// What deploying asks of a module.
pub open spec fn deployable(m: Module) -> bool { acceptable(m, true) && forall|p: Program| #[trigger] program_of(m, p) ==> obeys(p) && !recursive(p) }
pub struct Template { pub code: Vec<u8> }
/// The template a message is decoded to (C13), if it is one.
pub uninterp spec fn template_of(message: Seq<u8>) -> Option<Template>;
pub struct ParseError;
#[verifier::external_body]
pub fn decode_template(message: &Vec<u8>) -> (r: Result<Template, ParseError>) ensures r is Ok == template_of(message@) is Some, r is Ok ==> r->Ok_0 == template_of(message@)->Some_0 { unimplemented!() }
impl Template { pub fn code(&self) -> (r: &Vec<u8>) ensures *r == self.code { &self.code } }
/// Its three sources.
pub enum ValidateError { Parse(ParseError), Program(ProgramError), FixedGas(FixedGasError) }
impl From<ParseError> for ValidateError { #[verifier::external_body] fn from(e: ParseError) -> (r: ValidateError) { ValidateError::Parse(e) } }
impl From<ProgramError> for ValidateError { #[verifier::external_body] fn from(e: ProgramError) -> (r: ValidateError) { ValidateError::Program(e) } }
impl From<FixedGasError> for ValidateError { #[verifier::external_body] fn from(e: FixedGasError) -> (r: ValidateError) { ValidateError::FixedGas(e) } }
pub struct Runtime;
impl Runtime {
//@fn rtm Runtime::validate_deploy
//@local let mut cursor = std :: io :: Cursor :: new \(message\); ==>
//@local svm_codec :: template :: decode \(& mut cursor , None\) ==> decode_template(message)
//@local std :: result :: ==>
//@local svm_gas :: ==>
//@contract
    ensures r is Ok <==> template_of(message@) is Some && module_of(template_of(message@)->Some_0.code@) is Some && deployable(module_of(template_of(message@)->Some_0.code@)->Some_0)
//@begin
    let ghost m = module_of(template_of(message@)->Some_0.code@)->Some_0;
    proof { assert forall|p: Program, q: Program| #[trigger] program_of(m, p) && #[trigger] program_of(m, q) && obeys(p) && !recursive(p) implies obeys(q) && !recursive(q) by { same_calls(m, p, q); same_calls(m, q, p); } }
//@endfn
}
}
fn main() {}
