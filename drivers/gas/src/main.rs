//! Concrete driver for program validation and pricing: C11 and C12.
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

use parity_wasm::builder;
use parity_wasm::elements::{
    BlockType, BrTableData, CustomSection, ExportEntry, Instruction as I, Instructions, Internal, Section,
    ValueType,
};
use svm_gas::{compute_max_weight_path, FuncPrice, GraphBuilder, NodeWeight, PriceResolver, ProgramPricing};
use svm_genesis_config::GenesisConfig;
use svm_layout::FixedLayout;
use svm_program::{FuncIndex, Op, Program, ProgramVisitor};
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_runtime_testing::{build_deploy, WasmFile};
use svm_state::GlobalState;
use vcommon::{check, panics, trace, Prop, Rng};

// ---------------------------------------------------------------- structured code

#[derive(Clone, Debug)]
enum S {
    Op(I),
    Call(u32),
    Block(Vec<S>),
    Loop(Vec<S>),
    If(Vec<S>, Option<Vec<S>>),
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Return,
    Unreachable,
}

fn flat(ss: &[S], out: &mut Vec<I>) {
    for s in ss {
        match s {
            S::Op(i) => out.push(i.clone()),
            S::Call(f) => out.push(I::Call(*f)),
            S::Block(b) => {
                out.push(I::Block(BlockType::NoResult));
                flat(b, out);
                out.push(I::End);
            }
            S::Loop(b) => {
                out.push(I::Loop(BlockType::NoResult));
                flat(b, out);
                out.push(I::End);
            }
            S::If(t, e) => {
                out.push(I::If(BlockType::NoResult));
                flat(t, out);
                if let Some(e) = e {
                    out.push(I::Else);
                    flat(e, out);
                }
                out.push(I::End);
            }
            S::Br(l) => out.push(I::Br(*l)),
            S::BrIf(l) => out.push(I::BrIf(*l)),
            S::BrTable(t, d) => out.push(I::BrTable(Box::new(BrTableData { table: t.clone().into_boxed_slice(), default: *d }))),
            S::Return => out.push(I::Return),
            S::Unreachable => out.push(I::Unreachable),
        }
    }
}

/// The price of the dearest way of reaching a place; `None` when there is none.
type Reach = Option<u64>;

fn max(a: Reach, b: Reach) -> Reach {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.max(b)),
        (a, None) => a,
        (None, b) => b,
    }
}

/// An independent reading of structured control flow: the dearest way to reach the end of `ss`.
/// `labels` collects what reaches each enclosing scope's end, innermost last; the first is the function.
fn dearest(ss: &[S], mut cur: Reach, labels: &mut Vec<Reach>, op: &dyn Fn(&I) -> u64, call: &dyn Fn(u32) -> u64) -> Reach {
    fn jump(labels: &mut Vec<Reach>, l: u32, cur: Reach) {
        let k = labels.len() - 1 - l as usize;
        labels[k] = max(labels[k], cur);
    }
    for s in ss {
        match s {
            S::Op(i) => cur = cur.map(|c| c.saturating_add(op(i))),
            S::Call(f) => cur = cur.map(|c| c.saturating_add(call(*f))),
            S::Block(b) => {
                cur = cur.map(|c| c.saturating_add(op(&I::Block(BlockType::NoResult))));
                labels.push(None);
                let r = dearest(b, cur, labels, op, call);
                cur = max(r, labels.pop().unwrap());
            }
            S::If(t, e) => {
                labels.push(None);
                let a = dearest(t, cur, labels, op, call);
                let b = match e {
                    Some(e) => dearest(e, cur, labels, op, call),
                    None => cur,
                };
                cur = max(max(a, b), labels.pop().unwrap());
            }
            S::Br(l) => {
                jump(labels, *l, cur);
                cur = None
            }
            S::BrIf(l) => jump(labels, *l, cur),
            S::BrTable(t, d) => {
                for l in t.iter().chain(std::iter::once(d)) {
                    jump(labels, *l, cur);
                }
                cur = None
            }
            S::Return | S::Unreachable => {
                let k = labels.len() as u32 - 1;
                jump(labels, k, cur);
                cur = None
            }
            S::Loop(_) => unreachable!(),
        }
    }
    cur
}

struct Gen<'a> {
    r: &'a mut Rng,
    budget: i64,
    callees: Vec<u32>,
    jumps: bool,
    deep: u32,
}

impl<'a> Gen<'a> {
    fn cond(&mut self) -> S {
        S::Op(I::I32Const(self.r.below(50) as i32))
    }
    fn seq(&mut self, depth: u32, max_len: u64) -> Vec<S> {
        let n = self.r.below(max_len + 1);
        let mut out = vec![];
        for _ in 0..n {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            match self.r.below(14) {
                0 | 1 if depth < self.deep => out.push(S::Block(self.seq(depth + 1, max_len))),
                2 | 3 if depth < self.deep => {
                    out.push(self.cond());
                    let t = self.seq(depth + 1, max_len);
                    let e = if self.r.chance(1, 2) { Some(self.seq(depth + 1, max_len)) } else { None };
                    out.push(S::If(t, e));
                }
                4 if self.jumps => out.push(S::Br(self.r.below(depth as u64 + 1) as u32)),
                5 | 6 if self.jumps => {
                    out.push(self.cond());
                    out.push(S::BrIf(self.r.below(depth as u64 + 1) as u32))
                }
                7 if self.jumps && self.r.chance(1, 2) => {
                    out.push(self.cond());
                    let k = self.r.below(4);
                    let t = (0..k).map(|_| self.r.below(depth as u64 + 1) as u32).collect();
                    out.push(S::BrTable(t, self.r.below(depth as u64 + 1) as u32))
                }
                8 if self.jumps && self.r.chance(1, 3) => {
                    out.push(if self.r.chance(1, 2) { S::Return } else { S::Unreachable })
                }
                9 | 10 if !self.callees.is_empty() => {
                    let c = *self.r.pick(&self.callees);
                    out.push(S::Call(c))
                }
                11 => out.push(S::Op(I::Nop)),
                _ => {
                    out.push(S::Op(I::I32Const(self.r.below(50) as i32)));
                    out.push(S::Op(I::Drop));
                }
            }
        }
        out
    }
}

/// Every function `() -> ()`, `imports` imported ones first.
fn module(imports: usize, funcs: &[Vec<S>]) -> Vec<u8> {
    let mut m = builder::module();
    let sig = m.push_signature(builder::signature().build_sig());
    for k in 0..imports {
        m = m.import().module("host").field(&format!("f{k}")).external().func(sig).build();
    }
    for f in funcs {
        let mut code = vec![];
        flat(f, &mut code);
        code.push(I::End);
        m = m.function().signature().build().body().with_instructions(Instructions::new(code)).build().build();
    }
    parity_wasm::serialize(m.build()).unwrap()
}

struct Prices(u64);
impl Prices {
    fn op(&self, i: &I) -> u64 {
        let h = match i {
            I::I32Const(n) => 1000 + *n as u64,
            I::Nop => 1,
            I::Drop => 2,
            I::Block(_) => 3,
            I::Call(_) => 4,
            _ => 5,
        };
        match self.0 {
            0 => 1,
            // prices too large for a machine word are given as the largest word
            s if s % 10 == 7 => (1 << 60) + Rng::new(s, h).below(1 << 60),
            s => Rng::new(s, h).below(if s % 3 == 0 { 3 } else { 100 }),
        }
    }
    fn import(&self, name: &str) -> u64 {
        let k: u64 = name[1..].parse().unwrap();
        Rng::new(self.0 + 17, k).below(2000)
    }
}
struct Resolver(Rc<Prices>);
impl PriceResolver for Resolver {
    fn op_price(&self, op: &Op) -> usize {
        self.0.op(op.raw()) as usize
    }
    fn import_price(&self, import: (&str, &str)) -> usize {
        assert_eq!(import.0, "host");
        self.0.import(import.1) as usize
    }
}

fn c12_program(i: u64, r: &mut Rng) -> Result<u64, String> {
    let imports = r.usize(4);
    let n = r.usize(5) + 1;
    // calls go from earlier to later functions in a random order, so there is no cycle
    let mut order: Vec<u32> = (0..n as u32).map(|k| k + imports as u32).collect();
    for k in (1..n).rev() {
        order.swap(k, r.usize(k + 1));
    }
    let mut funcs: BTreeMap<u32, Vec<S>> = BTreeMap::new();
    for k in 0..n {
        let mut callees: Vec<u32> = (0..imports as u32).collect();
        callees.extend(&order[k + 1..]);
        let big = i % 40 == 39;
        let (jumps, budget, len) = (r.chance(5, 6), r.range(1, if big { 600 } else { 60 }) as i64, r.range(1, 7));
        let body = Gen { r, budget, callees, jumps, deep: if big { 60 } else { 7 } }.seq(0, len);
        funcs.insert(order[k], body);
    }
    let prices = Rc::new(Prices(r.below(40)));
    let bodies: Vec<_> = funcs.values().cloned().collect();
    let wasm = module(imports, &bodies);
    for (f, b) in &funcs {
        trace(format!("function {f}: {b:?}"));
    }
    trace(format!("imported functions: {imports}, prices: seed {}", prices.0));

    let mut want: BTreeMap<u32, u64> = BTreeMap::new();
    for f in order.iter().rev() {
        let call = |t: u32| if (t as usize) < imports { prices.import(&format!("f{t}")) } else { want[&t] };
        let mut labels = vec![None];
        let end = dearest(&funcs[f], Some(0), &mut labels, &|i| prices.op(i), &call);
        let p = max(end, labels[0]).unwrap();
        want.insert(*f, p);
    }

    let program = Program::new(&wasm, false).map_err(|e| format!("a valid program is refused: {e}"))?;
    check!(svm_gas::validate_wasm(&program, false).is_ok(), "a program with neither loops nor call cycles is refused");
    let got: FuncPrice = panics(|| ProgramPricing::new(Rc::new(Resolver(prices.clone()))).visit(&program))
        .map_err(|e| format!("pricing a valid program panics: {e}"))?
        .map_err(|e| format!("pricing a valid program fails: {e}"))?;
    for (f, p) in &want {
        let g = panics(|| got.get(FuncIndex(*f))).map_err(|_| format!("function {f} has no price"))?;
        check!(g as u64 == *p, "the price of function {f} is {g}, its dearest path costs {p}");
    }
    Ok(n as u64)
}

fn c12_graph(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let n = r.range(1, 9) as usize;
    let mut labels: Vec<u64> = (0..n as u64).collect();
    for k in (1..n).rev() {
        labels.swap(k, r.usize(k + 1));
    }
    let w: Vec<u64> = (0..n).map(|_| r.below(*r.clone().pick(&[2u64, 10, 1000, u64::MAX / 3]))).collect();
    let dense = r.range(1, 10);
    let mut edges = vec![];
    for a in 0..n {
        for b in a + 1..n {
            if b == a + 1 && r.chance(1, 2) || r.below(10) < dense {
                edges.push((a, b));
            }
        }
    }
    for k in (1..edges.len()).rev() {
        edges.swap(k, r.usize(k + 1));
    }
    // topological position k carries label labels[k]; start is position 0, the end is reachable
    let mut best: Vec<Reach> = vec![None; n];
    best[0] = Some(w[0]);
    for b in 1..n {
        for &(x, y) in &edges {
            if y == b {
                best[b] = max(best[b], best[x].map(|v| v.saturating_add(w[b])));
            }
        }
    }
    let reach: Vec<usize> = (0..n).filter(|k| best[*k].is_some()).collect();
    let end = *r.pick(&reach);
    trace(format!("weights {w:?} edges {edges:?} start 0 end {end} labels {labels:?}"));
    let name = |k: usize| svm_program::FuncIndex(labels[k] as u32);
    let total = panics(|| {
        let mut g: GraphBuilder<FuncIndex, NodeWeight<FuncIndex>> = GraphBuilder::new();
        for k in 0..n {
            let node = g.get_or_create_mut(name(k));
            let node = node.as_ref();
            node.data().set_label(name(k));
            node.data().set_weight(w[k] as usize);
        }
        for &(a, b) in &edges {
            g.add_edge(name(a), name(b));
        }
        let p = compute_max_weight_path(&g.build(), name(0), name(end));
        p
    })
    .map_err(|e| format!("computing the dearest path panics: {e}"))?;
    check!(
        total.total() as u64 == best[end].unwrap(),
        "the dearest path costs {}, computed {}",
        best[end].unwrap(),
        total.total()
    );
    Ok(1)
}

// ---------------------------------------------------------------- C11

fn floats(k: u64) -> Vec<I> {
    use I::*;
    let f32s = [
        F32Eq, F32Ne, F32Lt, F32Gt, F32Le, F32Ge, F32Add, F32Sub, F32Mul, F32Div, F32Min, F32Max, F32Copysign,
    ];
    let f64s = [
        F64Eq, F64Ne, F64Lt, F64Gt, F64Le, F64Ge, F64Add, F64Sub, F64Mul, F64Div, F64Min, F64Max, F64Copysign,
    ];
    let un = [
        F32Abs, F32Neg, F32Ceil, F32Floor, F32Trunc, F32Nearest, F32Sqrt, F64Abs, F64Neg, F64Ceil, F64Floor, F64Trunc,
        F64Nearest, F64Sqrt, I32TruncSF32, I32TruncUF32, I32TruncSF64, I32TruncUF64, I64TruncSF32, I64TruncUF32,
        I64TruncSF64, I64TruncUF64, F32ConvertSI32, F32ConvertUI32, F32ConvertSI64, F32ConvertUI64, F32DemoteF64,
        F64ConvertSI32, F64ConvertUI32, F64ConvertSI64, F64ConvertUI64, F64PromoteF32, I32ReinterpretF32,
        I64ReinterpretF64, F32ReinterpretI32, F64ReinterpretI64,
    ];
    let mem = [F32Load(2, 0), F64Load(3, 8), F32Store(2, 0), F64Store(3, 16), F32Const(0), F64Const(0)];
    let mut all: Vec<I> = vec![];
    all.extend(f32s);
    all.extend(f64s);
    all.extend(un);
    all.extend(mem);
    if k == u64::MAX {
        return all;
    }
    vec![all[(k % all.len() as u64) as usize].clone()]
}

/// Integer and memory instructions of the accepted language, next to the float ones in the opcode table.
fn ints(r: &mut Rng) -> I {
    use I::*;
    let all = [
        I32Eqz, I32Eq, I32Ne, I32LtS, I32LtU, I32GtS, I32GtU, I32LeS, I32LeU, I32GeS, I32GeU, I64Eqz, I64Eq, I64Ne,
        I64LtS, I64LtU, I64GtS, I64GtU, I64LeS, I64LeU, I64GeS, I64GeU, I32Clz, I32Ctz, I32Popcnt, I32Add, I32Sub,
        I32Mul, I32DivS, I32DivU, I32RemS, I32RemU, I32And, I32Or, I32Xor, I32Shl, I32ShrS, I32ShrU, I32Rotl, I32Rotr,
        I64Clz, I64Ctz, I64Popcnt, I64Add, I64Sub, I64Mul, I64DivS, I64DivU, I64RemS, I64RemU, I64And, I64Or, I64Xor,
        I64Shl, I64ShrS, I64ShrU, I64Rotl, I64Rotr, I32WrapI64, I64ExtendSI32, I64ExtendUI32, I32Load(2, 0),
        I64Load(3, 0), I32Load8S(0, 1), I32Load8U(0, 1), I32Load16S(1, 2), I32Load16U(1, 2), I64Load8S(0, 0),
        I64Load8U(0, 0), I64Load16S(1, 0), I64Load16U(1, 0), I64Load32S(2, 0), I64Load32U(2, 0), I32Store(2, 0),
        I64Store(3, 0), I32Store8(0, 0), I32Store16(1, 0), I64Store8(0, 0), I64Store16(1, 0), I64Store32(2, 0),
        CurrentMemory(0), GrowMemory(0), I64Const(7), I32Const(-1), Drop, Select, Nop,
    ];
    r.pick(&all).clone()
}

/// Puts `s` at a random place of `body`, at any nesting.
fn plant(body: &mut Vec<S>, s: S, r: &mut Rng) {
    let spots: Vec<usize> = (0..body.len())
        .filter(|k| matches!(body[*k], S::Block(_) | S::If(..)))
        .collect();
    if !spots.is_empty() && r.chance(2, 3) {
        let k = *r.pick(&spots);
        match &mut body[k] {
            S::Block(b) => return plant(b, s, r),
            S::If(t, e) => {
                if let (Some(e), true) = (e, r.chance(1, 2)) {
                    return plant(e, s, r);
                }
                return plant(t, s, r);
            }
            _ => unreachable!(),
        }
    }
    let k = r.usize(body.len() + 1);
    body.insert(k, s);
}

#[derive(Clone, Debug, PartialEq)]
enum Offence {
    None,
    Float(u64),
    Loop,
    Indirect,
    SelfCall,
    Cycle(u64),
    NoExport(u8),
    NotFunction(u8),
    WrongSig(u8, u64),
    Imported(u8),
}

struct World(Runtime, Arc<tokio::runtime::Runtime>);
thread_local! { static WORLD: World = {
    let rt = Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    let gs = rt.block_on(GlobalState::in_memory(GenesisConfig::mainnet()));
    World(Runtime::new(rt.clone(), gs, TemplatePriceCache::new(PriceResolverRegistry::default())), rt)
}}

/// (as a program, as a deployment) accepted?
fn verdicts(wasm: &[u8]) -> Result<(bool, bool), String> {
    let a = panics(|| Program::new(wasm, true).map_err(|e| e.to_string()).and_then(|p| svm_gas::validate_wasm(&p, false).map_err(|e| e.to_string())))
        .map_err(|e| format!("validating a program panics: {e}"))?;
    let msg = build_deploy(0, "T", FixedLayout::from_byte_sizes(0, &[4]), &["initialize".to_string()], WasmFile::Binary(wasm));
    let b = panics(|| WORLD.with(|w| w.0.validate_deploy(&msg).is_ok()))
        .map_err(|e| format!("validating a deployment panics: {e}"))?;
    // finding an example cycle must not change the answer
    let c = panics(|| Program::new(wasm, true).is_ok() && svm_gas::validate_wasm(&Program::new(wasm, true).unwrap(), true).is_ok())
        .map_err(|e| format!("validating with cycles reported panics: {e}"))?;
    if a.is_ok() != c {
        return Err("asking for an example of a cycle changes the answer".into());
    }
    Ok((a.is_ok(), b))
}

fn build(imports: usize, funcs: &[Vec<S>], off: &Offence, r: &mut Rng) -> Vec<u8> {
    let mut m = builder::module();
    // filler signatures so that type indices differ from function indices
    let fill = r.usize(4);
    for k in 0..fill {
        m.push_signature(builder::signature().with_params(vec![ValueType::I64; k + 2]).build_sig());
    }
    let unit = m.push_signature(builder::signature().build_sig());
    let alloc_t = m.push_signature(builder::signature().with_param(ValueType::I32).with_result(ValueType::I32).build_sig());
    let verify_t = m.push_signature(builder::signature().with_result(ValueType::I32).build_sig());
    let imp_sig = |which: u8| if which == 0 { alloc_t } else { verify_t };
    let mut total = imports as u32;
    for k in 0..imports {
        m = m.import().module("svm").field(&format!("f{k}")).external().func(unit).build();
    }
    let mut imported = None;
    if let Offence::Imported(w) = off {
        m = m.import().module("svm").field("again").external().func(imp_sig(*w)).build();
        imported = Some(total);
        total += 1;
    }
    let shift = imported.is_some() as u32;
    let mut add = |m: builder::ModuleBuilder, params: Vec<ValueType>, results: Vec<ValueType>, code: Vec<I>| {
        total += 1;
        let mut sb = builder::function().signature();
        for p in params {
            sb = sb.with_param(p);
        }
        for p in results {
            sb = sb.with_result(p);
        }
        let f = sb.build().body().with_instructions(Instructions::new(code)).build().build();
        let mut m = m;
        m.push_function(f);
        (m, total - 1)
    };
    let bad = |k: u64, which: u8| -> (Vec<ValueType>, Vec<ValueType>, Vec<I>) {
        let v = [
            (vec![], vec![], vec![I::End]),
            (vec![ValueType::I32], vec![], vec![I::End]),
            (vec![ValueType::I64], vec![ValueType::I32], vec![I::I32Const(0), I::End]),
            (vec![ValueType::I32], vec![ValueType::I64], vec![I::I64Const(0), I::End]),
            (vec![ValueType::I32, ValueType::I32], vec![ValueType::I32], vec![I::I32Const(0), I::End]),
            (vec![], vec![ValueType::I64], vec![I::I64Const(0), I::End]),
            (vec![ValueType::F32], vec![ValueType::I32], vec![I::I32Const(0), I::End]),
            if which == 0 {
                (vec![], vec![ValueType::I32], vec![I::I32Const(0), I::End])
            } else {
                (vec![ValueType::I32], vec![ValueType::I32], vec![I::I32Const(0), I::End])
            },
        ];
        v[(k % v.len() as u64) as usize].clone()
    };
    let first = r.chance(1, 2);
    let mut ids = [0u32; 2];
    let mut put_req = |m: builder::ModuleBuilder, add: &mut dyn FnMut(builder::ModuleBuilder, Vec<ValueType>, Vec<ValueType>, Vec<I>) -> (builder::ModuleBuilder, u32)| {
        let mut m = m;
        for which in 0..2u8 {
            let (params, results, code) = match off {
                Offence::WrongSig(w, k) if *w == which => bad(*k, which),
                _ if which == 0 => (vec![ValueType::I32], vec![ValueType::I32], vec![I::I32Const(0), I::End]),
                _ => (vec![], vec![ValueType::I32], vec![I::I32Const(0), I::End]),
            };
            let (m2, id) = add(m, params, results, code);
            m = m2;
            ids[which as usize] = id;
        }
        m
    };
    // callees were numbered with the plain functions right after the imports
    let base = imports as u32 + shift + if first { 2 } else { 0 };
    fn renumber(ss: &mut [S], imports: u32, base: u32) {
        for s in ss {
            match s {
                S::Call(f) if *f >= imports => *f = *f - imports + base,
                S::Block(b) | S::Loop(b) => renumber(b, imports, base),
                S::If(t, e) => {
                    renumber(t, imports, base);
                    if let Some(e) = e {
                        renumber(e, imports, base)
                    }
                }
                _ => {}
            }
        }
    }
    if first {
        m = put_req(m, &mut add);
    }
    for f in funcs {
        let mut f = f.clone();
        renumber(&mut f, imports as u32, base);
        let mut code = vec![];
        flat(&f, &mut code);
        code.push(I::End);
        let (m2, _) = add(m, vec![], vec![], code);
        m = m2;
    }
    if !first {
        m = put_req(m, &mut add);
    }
    drop(add);
    m = m.memory().with_min(1).build();
    m = m.table().with_min(1).build();
    let names = ["svm_alloc", "svm_verify"];
    let mut entries = vec![];
    for which in 0..2u8 {
        let w = which as usize;
        let internal = match off {
            Offence::NoExport(x) if *x == which => continue,
            Offence::NotFunction(x) if *x == which => Internal::Memory(0),
            Offence::Imported(x) if *x == which => Internal::Function(imported.unwrap()),
            _ => Internal::Function(ids[w]),
        };
        entries.push(ExportEntry::new(names[w].to_string(), internal));
    }
    if r.chance(1, 2) {
        entries.reverse();
    }
    let extra = r.usize(3);
    for k in 0..extra {
        let at = r.usize(entries.len() + 1);
        entries.insert(at, ExportEntry::new(format!("svm_{k}"), if r.chance(1, 2) { Internal::Memory(0) } else { Internal::Function(ids[0]) }));
    }
    let mut module = m.build();
    if entries.is_empty() {
        module.sections_mut().retain(|s| !matches!(s, Section::Export(_)));
    } else {
        match module.export_section_mut() {
            Some(s) => *s.entries_mut() = entries,
            None => {
                module.insert_section(Section::Export(parity_wasm::elements::ExportSection::with_entries(entries))).unwrap();
            }
        }
    }
    if r.chance(1, 8) {
        module.sections_mut().push(Section::Custom(CustomSection::new("x".into(), vec![1, 2, 3])));
    }
    parity_wasm::serialize(module).unwrap()
}

fn c11_rules(i: u64, r: &mut Rng) -> Result<u64, String> {
    let imports = r.usize(4);
    let n = r.range(1, 6) as usize;
    let nf = floats(u64::MAX).len() as u64;
    let off = match i % 10 {
        0 => Offence::None,
        1 => Offence::Float((i / 10) % nf),
        2 => Offence::Loop,
        3 => Offence::Indirect,
        4 => Offence::SelfCall,
        5 => Offence::Cycle(r.range(2, 5)),
        6 => match r.below(3) {
            0 => Offence::NoExport(r.below(2) as u8),
            1 => Offence::NotFunction(r.below(2) as u8),
            _ => Offence::Imported(r.below(2) as u8),
        },
        7 => Offence::WrongSig(r.below(2) as u8, r.below(64)),
        _ => Offence::None,
    };
    let n = if let Offence::Cycle(k) = off { n.max(k as usize) } else { n };
    let mut order: Vec<u32> = (0..n as u32).map(|k| k + imports as u32).collect();
    for k in (1..n).rev() {
        order.swap(k, r.usize(k + 1));
    }
    let mut funcs: BTreeMap<u32, Vec<S>> = BTreeMap::new();
    for k in 0..n {
        let mut callees: Vec<u32> = (0..imports as u32).collect();
        callees.extend(&order[k + 1..]);
        let (budget, len) = (r.range(0, 40) as i64, r.range(1, 6));
        let mut body = Gen { r, budget, callees, jumps: true, deep: 7 }.seq(0, len);
        for _ in 0..r.below(4) {
            let s = S::Op(ints(r));
            plant(&mut body, s, r);
        }
        funcs.insert(order[k], body);
    }
    let at = *r.pick(&order);
    match &off {
        Offence::Float(k) => {
            let s = S::Op(floats(*k)[0].clone());
            plant(funcs.get_mut(&at).unwrap(), s, r)
        }
        Offence::Loop => {
            let s = S::Loop(if r.chance(1, 2) { vec![] } else { vec![S::Op(I::Nop)] });
            plant(funcs.get_mut(&at).unwrap(), s, r)
        }
        Offence::Indirect => plant(funcs.get_mut(&at).unwrap(), S::Op(I::CallIndirect(0, 0)), r),
        Offence::SelfCall => plant(funcs.get_mut(&at).unwrap(), S::Call(at), r),
        Offence::Cycle(k) => {
            let mut who = order.clone();
            for k in (1..n).rev() {
                who.swap(k, r.usize(k + 1));
            }
            who.truncate(*k as usize);
            for j in 0..who.len() {
                let next = who[(j + 1) % who.len()];
                plant(funcs.get_mut(&who[j]).unwrap(), S::Call(next), r);
            }
        }
        _ => {}
    }
    for (f, b) in &funcs {
        trace(format!("function {f}: {b:?}"));
    }
    trace(format!("imported functions: {imports}, offence: {off:?}"));
    let bodies: Vec<_> = funcs.values().cloned().collect();
    let wasm = build(imports, &bodies, &off, r);
    trace(format!("wasm: {wasm:02x?}"));
    let (program, deploy) = verdicts(&wasm)?;
    let want = off == Offence::None;
    check!(program == want, "offence {off:?}: the program is {}", if program { "accepted" } else { "refused" });
    check!(deploy == want, "offence {off:?}: the deployment is {}", if deploy { "accepted" } else { "refused" });
    Ok(2)
}

/// Any bytes get an answer.
fn c11_bytes(i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut wasm = if i % 3 == 0 {
        let mut v = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
        let n = r.usize(60);
        v.extend(r.bytes(n));
        v
    } else {
        let body = Gen { r, budget: 20, callees: vec![0], jumps: true, deep: 7 }.seq(0, 5);
        build(1, &[body], &Offence::None, r)
    };
    for _ in 0..r.below(6) {
        if wasm.len() <= 8 {
            break;
        }
        let k = if r.chance(1, 20) { r.usize(wasm.len()) } else { 8 + r.usize(wasm.len() - 8) };
        match r.below(5) {
            0 => wasm[k] = r.u64() as u8,
            1 => wasm[k] = wasm[k].wrapping_add(1),
            2 => wasm[k] ^= 1 << r.below(8),
            3 => {
                wasm.remove(k);
            }
            _ => wasm.insert(k, r.u64() as u8),
        }
    }
    if r.chance(1, 10) {
        let k = r.usize(wasm.len() + 1);
        wasm.truncate(k);
    }
    trace(format!("wasm: {wasm:02x?}"));
    let (a, b) = verdicts(&wasm)?;
    check!(a == b, "a program {} by itself is {} as a deployment", a, b);
    let m: Vec<u8> = if r.chance(1, 2) { wasm.clone() } else {
        let mut m = build_deploy(0, "T", FixedLayout::from_byte_sizes(0, &[4]), &["initialize".to_string()], WasmFile::Binary(&wasm));
        if !m.is_empty() {
            let k = r.usize(m.len());
            m[k] = r.u64() as u8;
            if r.chance(1, 3) { m.truncate(k) }
        }
        m
    };
    trace(format!("deployment: {m:02x?}"));
    panics(|| WORLD.with(|w| w.0.validate_deploy(&m).is_ok())).map_err(|e| format!("validating a deployment panics: {e}"))?;
    Ok(2)
}

fn main() {
    vcommon::main(&[
        Prop { id: "C11", case: c11_rules, quick: 40_000, thorough: 2_000_000 },
        Prop { id: "C11", case: c11_bytes, quick: 80_000, thorough: 4_000_000 },
        Prop { id: "C12", case: c12_program, quick: 60_000, thorough: 3_000_000 },
        Prop { id: "C12", case: c12_graph, quick: 60_000, thorough: 3_000_000 },
    ])
}
