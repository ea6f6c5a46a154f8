//! Concrete driver for the runtime: C05 (host functions) to C10.
use std::collections::BTreeMap;
use std::sync::Arc;

use svm_gas::ProgramPricing;
use svm_genesis_config::GenesisConfig;
use svm_layout::FixedLayout;
use svm_program::{Program, ProgramVisitor};
use svm_runtime::{vmcalls, AccessMode, FuncEnv, PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_runtime_testing::{build_call, build_deploy, build_spawn, WasmFile};
use svm_state::{AccountStorage, GlobalState};
use svm_types::{Address, BytesPrimitive, Context, Envelope, Gas, RuntimeError, SpawnAccount, State, TemplateAddr};
use vcommon::{check, panics, trace, Prop, Rng, Scratch};

type Tokio = tokio::runtime::Runtime;

/// Everything readable of an account.
#[derive(Clone, Debug, PartialEq)]
struct Acc {
    name: String,
    balance: u64,
    counter: u128,
    template: TemplateAddr,
    vars: Vec<Vec<u8>>,
}
type Snap = BTreeMap<Vec<u8>, Option<Acc>>;

struct Host {
    rt: Arc<Tokio>,
    gs: GlobalState,
    run: Runtime,
    _dir: Scratch,
    addrs: Vec<Address>,
    /// number of variables per template, first id 0
    nvars: BTreeMap<Vec<u8>, Vec<u32>>,
}

const IMPORTS: &str = r#"
  (func $get32 (import "svm" "svm_get32") (param i32) (result i32))
  (func $set32 (import "svm" "svm_set32") (param i32 i32))
  (func $get64 (import "svm" "svm_get64") (param i32) (result i64))
  (func $set64 (import "svm" "svm_set64") (param i32 i64))
  (func $load160 (import "svm" "svm_load160") (param i32 i32))
  (func $store160 (import "svm" "svm_store160") (param i32 i32))
  (func $log (import "svm" "svm_log") (param i32 i32))
  (func $static_alloc (import "svm" "svm_static_alloc") (param i32) (result i32))
  (func $calldata_offset (import "svm" "svm_calldata_offset") (result i32))
  (func $calldata_len (import "svm" "svm_calldata_len") (result i32))
  (func $set_returndata (import "svm" "svm_set_returndata") (param i32 i32))
  (func $transfer (import "svm" "svm_transfer") (param i32 i32 i64))
"#;

impl Host {
    fn new() -> Host {
        let dir = Scratch::new();
        let rt = Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
        let gs = rt.block_on(GlobalState::new(&dir.uri(), GenesisConfig::mainnet()));
        let run = Runtime::new(rt.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
        Host { rt, gs, run, _dir: dir, addrs: vec![], nvars: BTreeMap::new() }
    }
    fn genesis(&mut self, a: Address, balance: u64, counter: u128) {
        self.run.create_genesis_account(&a, "genesis", balance, counter).unwrap();
        self.addrs.push(a);
    }
    /// Deploys without gas limit; returns the template and the address its account will have.
    fn deploy(&mut self, wat: &str, sizes: &[u32], ctors: &[String]) -> (TemplateAddr, Address) {
        let code = wat::parse_str(wat).unwrap_or_else(|e| panic!("driver: bad wat: {e}\n{wat}"));
        self.deploy_bin(&code, sizes, ctors)
    }
    fn deploy_bin(&mut self, code: &[u8], sizes: &[u32], ctors: &[String]) -> (TemplateAddr, Address) {
        let msg = build_deploy(0, "T", FixedLayout::from_byte_sizes(0, sizes), ctors, WasmFile::Binary(code));
        let rec = self.run.deploy(&Envelope::default(), &msg, &Context::default());
        assert!(rec.success, "driver: deploy failed");
        let t = *rec.template_addr();
        self.nvars.insert(t.as_slice().to_vec(), sizes.to_vec());
        let a = svm_runtime::compute_account_addr(&SpawnAccount::new(0, &t, "", "", vec![]));
        self.addrs.push(a);
        (t, a)
    }
    fn acc(&self, a: &Address) -> Option<Acc> {
        let s = self.rt.block_on(AccountStorage::load(self.gs.clone(), a)).ok()?;
        self.rt.block_on(async {
            let template = s.template_addr().await.ok()?;
            let mut vars = vec![];
            if let Some(sizes) = self.nvars.get(template.as_slice()) {
                for v in 0..sizes.len() {
                    vars.push(s.get_var_vec(v as u32).await.unwrap());
                }
            }
            Some(Acc { name: s.name().await.ok()?, balance: s.balance().await.ok()?, counter: s.counter().await.ok()?, template, vars })
        })
    }
    fn snap(&self) -> Snap {
        self.addrs.iter().map(|a| (a.as_slice().to_vec(), self.acc(a))).collect()
    }
    fn root(&mut self) -> (u64, State) {
        let (l, s) = self.run.current_layer();
        (l.0, s)
    }
}

fn diff(a: &Snap, b: &Snap) -> String {
    a.iter().filter(|(k, v)| b.get(*k) != Some(*v)).map(|(k, v)| format!("{k:02x?}: {v:?} became {:?}", b.get(k))).collect::<Vec<_>>().join("; ")
}

fn data(at: usize, bytes: &[u8]) -> String {
    let hex: String = bytes.iter().map(|b| format!("\\{b:02x}")).collect();
    format!("(data (i32.const {at}) \"{hex}\")")
}

fn module(alloc: &str, verify: &str, datas: &str, funcs: &str) -> String {
    format!(
        r#"(module {IMPORTS} (memory (export "memory") 1) {datas}
  (func (export "svm_alloc") (param i32) (result i32) {alloc} i32.const 4096)
  (func (export "svm_verify") {verify})
  {funcs})"#
    )
}

fn a20(n: u8) -> Address {
    Address::new([n; 20])
}

// ---------------------------------------------------------------- C06

struct Env {
    rt: Arc<Tokio>,
    gs: GlobalState,
    memory: wasmer::Memory,
}
impl Env {
    fn env(&self, target: &Address, mode: AccessMode) -> FuncEnv {
        let s = self.rt.block_on(AccountStorage::load(self.gs.clone(), target)).unwrap();
        let t = self.rt.block_on(s.template_addr()).unwrap();
        FuncEnv::new_with_memory(self.rt.clone(), self.memory.clone(), s, &Envelope::default(), &Context::default(), t, *target, mode)
    }
    fn poke(&self, at: usize, bytes: &[u8]) {
        let v = self.memory.view::<u8>();
        for (i, b) in bytes.iter().enumerate() {
            v[at + i].set(*b)
        }
    }
    fn peek(&self) -> Vec<u8> {
        self.memory.view::<u8>().iter().map(|c| c.get()).collect()
    }
}
fn memory() -> wasmer::Memory {
    let store = svm_runtime::new_store();
    wasmer::Memory::new(&store, wasmer::MemoryType::new(wasmer::Pages(1), None, false)).unwrap()
}

fn amount_near(r: &mut Rng, x: u64, y: u64) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => x,
        2 => x.wrapping_add(1),
        3 => x.saturating_sub(1),
        4 => u64::MAX - y,
        5 => (u64::MAX - y).wrapping_add(1),
        6 => r.below(x.max(1)),
        _ => r.edge(),
    }
}

fn c06(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut h = Host::new();
    let n = 4u8;
    for k in 1..=n {
        let b = r.edge();
        trace(format!("account {k}: balance {b}"));
        h.genesis(a20(k), b, k as u128);
    }
    // A program with an account of its own.
    let sends = r.range(1, 3);
    let mut body = String::new();
    let mut datas = String::new();
    let mut plan = vec![];
    let wat0 = module("", "", "", "");
    let _ = wat0;
    for s in 0..sends {
        plan.push((s, r.edge(), r.below(n as u64 + 1) as u8 + 1));
    }
    // The address of the program's account depends on its code, so it is read from calldata.
    for (s, _, dst) in &plan {
        datas += &data(100 + 32 * *s as usize, &[*dst; 20]);
        body += &format!("(call $transfer (call $calldata_offset) (i32.const {}) (i64.load (i32.add (call $calldata_offset) (i32.const {}))))", 100 + 32 * s, 20 + 8 * s);
    }
    let wat = module("", "", &datas, &format!(r#"(func (export "init")) (func (export "send") {body})"#));
    let (t, pa) = h.deploy(&wat, &[8], &["init".to_string()]);
    let rec = h.run.spawn(&Envelope::default(), &build_spawn(&t, "p", "init", &[]), &Context::default());
    check!(rec.success, "spawn failed: {:?}", rec.error);
    let pb = r.edge();
    h.run.increase_balance(&pa, pb).unwrap();
    let mem = memory();
    let ghost = a20(0xEE); // never exists
    h.addrs.push(ghost);
    let mut checks = 0;
    let steps = r.range(4, 14);
    for _ in 0..steps {
        let before = h.snap();
        let all: Vec<Address> = (1..=n).map(a20).chain([pa]).collect();
        let src = *r.pick(&all);
        let dst = match r.below(8) {
            0 => ghost,
            1 => src,
            _ => *r.pick(&all),
        };
        let bal = |a: &Address| before[a.as_slice()].as_ref().map(|x| x.balance);
        let (sb, db) = (bal(&src).unwrap(), bal(&dst));
        let amount = amount_near(r, sb, db.unwrap_or(0));
        let mut want = before.clone();
        let possible = db.is_some() && sb >= amount && (src == dst || db.unwrap().checked_add(amount).is_some());
        if possible && src != dst {
            want.get_mut(src.as_slice()).unwrap().as_mut().unwrap().balance = sb - amount;
            want.get_mut(dst.as_slice()).unwrap().as_mut().unwrap().balance = db.unwrap() + amount;
        }
        checks += 1;
        match r.below(4) {
            0 => {
                trace(format!("host transfer {:02x?} -> {:02x?} {amount} (balances {sb} {db:?})", src.as_slice()[0], dst.as_slice()[0]));
                let ok = panics(|| h.run.transfer(&src, &dst, amount)).is_ok();
                if amount > 0 {
                    check!(ok == possible, "transfer of {amount} (balances {sb}, {db:?}): expected success={possible}, got {ok}");
                }
                let after = h.snap();
                check!(after == want, "transfer of {amount} (balances {sb}, {db:?}): wrong effect: {}", diff(&want, &after));
            }
            1 | 2 => {
                // Through the host function; sometimes naming an account that is not the program's.
                let env = Env { rt: h.rt.clone(), gs: h.gs.clone(), memory: mem.clone() };
                let target = if r.chance(3, 4) { src } else { *r.pick(&all) };
                let (mut so, d) = (*r.pick(&[0usize, 1, 3, 64, 65516]), 200 + r.usize(7));
                let mut off_end = false;
                env.poke(so, src.as_slice());
                env.poke(d, dst.as_slice());
                if r.chance(1, 12) {
                    so = 65517 + r.usize(30);
                    off_end = true;
                }
                trace(format!("svm_transfer as {:02x?}: {:02x?} -> {:02x?} {amount} (balances {sb} {db:?})", target.as_slice()[0], src.as_slice()[0], dst.as_slice()[0]));
                let fe = env.env(&target, AccessMode::FullAccess);
                let ok = panics(|| vmcalls::svm_transfer(&fe, so as i32, d as i32, amount)).is_ok();
                let can = possible && src == target && !off_end;
                if amount > 0 {
                    check!(ok == can, "program of {:02x?} sending {amount} of {:02x?} (balances {sb}, {db:?}): expected success={can}, got {ok}", target.as_slice()[0], src.as_slice()[0]);
                }
                let after = h.snap();
                let want = if can { want } else { before };
                check!(after == want, "program transfer of {amount} (balances {sb}, {db:?}): wrong effect: {}", diff(&want, &after));
            }
            _ => {
                // A whole transaction of several sends.
                let mut args = vec![];
                let mut bals: BTreeMap<u8, u64> = BTreeMap::new();
                for k in 1..=n {
                    bals.insert(k, bal(&a20(k)).unwrap());
                }
                let mut mine = bal(&pa).unwrap();
                let mut ok = true;
                let mut amounts = vec![];
                for (_, _, dst) in &plan {
                    let db = bals.get(dst).copied();
                    let amount = if r.chance(2, 3) { r.below((mine / 3).max(1)).min(u64::MAX - db.unwrap_or(0)) } else { amount_near(r, mine, db.unwrap_or(0)) };
                    amounts.push((amount, *dst));
                    args.extend(amount.to_le_bytes());
                    if !ok || amount == 0 {
                        continue;
                    }
                    match db {
                        Some(b) if mine >= amount && b.checked_add(amount).is_some() => {
                            mine -= amount;
                            bals.insert(*dst, b + amount);
                        }
                        _ => ok = false,
                    }
                }
                trace(format!("call send {amounts:?} with balance {:?}", bal(&pa)));
                let mut cd = pa.as_slice().to_vec();
                cd.extend(args);
                let msg = build_call(&pa, "send", &cd);
                let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
                let success = matches!(&rec, Ok(x) if x.success);
                check!(success == ok, "program sending {amounts:?}: expected success={ok}, got {:?}", rec.map(|x| x.error));
                let mut want = before.clone();
                if ok {
                    want.get_mut(pa.as_slice()).unwrap().as_mut().unwrap().balance = mine;
                    for (k, b) in bals {
                        want.get_mut(a20(k).as_slice()).unwrap().as_mut().unwrap().balance = b;
                    }
                }
                let after = h.snap();
                check!(after == want, "program sending {amounts:?}: wrong effect: {}", diff(&want, &after));
            }
        }
    }
    Ok(checks)
}

// ---------------------------------------------------------------- C07

/// A random function body writing storage and moving coins, and how it ends.
fn body(r: &mut Rng, sizes: &[u32], fail: Option<u64>) -> String {
    let mut b = String::new();
    let me = "(i32.const 300)"; // address of the account itself, put there by the calldata or data
    let n = r.range(1, 4);
    let fail_at = r.below(n + 1);
    for k in 0..=n {
        if k == fail_at {
            match fail {
                Some(0) => b += "unreachable",
                Some(1) => b += "(drop (i32.div_u (i32.const 1) (i32.const 0)))",
                Some(2) => b += &format!("(call $set32 (i32.const {}) (i32.const 1))", sizes.len() + r.usize(3)),
                Some(3) => b += &format!("(call $transfer {me} (i32.const 100) (i64.const -1))"),
                Some(4) => b += &format!("(call $transfer {me} (i32.const 200) (i64.const 1))"), // 200: no such account
                Some(5) => b += "(drop (i32.load (i32.const 65536)))",
                Some(6) => b += "(call $log (i32.const 65530) (i32.const 100))",
                Some(7) => b += "(call $set_returndata (i32.const 65530) (i32.const 100))",
                Some(8) => b += "(call $transfer (i32.const 100) (i32.const 132) (i64.const 1))", // somebody else's coins
                _ => {}
            }
        }
        match r.below(5) {
            0 | 1 => {
                let v = r.usize(sizes.len());
                match sizes[v] {
                    4 => b += &format!("(call $set32 (i32.const {v}) (i32.const {}))", r.u64() as i32),
                    8 => b += &format!("(call $set64 (i32.const {v}) (i64.const {}))", r.u64() as i64),
                    _ => b += &format!("(call $store160 (i32.const {}) (i32.const {v}))", r.below(100)),
                }
            }
            2 => b += &format!("(call $transfer {me} (i32.const {}) (i64.const {}))", 100 + 32 * r.below(2), r.range(1, 5)),
            3 => b += "(call $log (i32.const 0) (i32.const 4))",
            _ => b += "(drop (call $get64 (i32.const 0)))",
        }
    }
    b
}

/// Addresses an account has are only known once its code is: the template is deployed with a
/// patched copy of its own address, read from the calldata into offset 300.
const COPY_SELF: &str = "(i64.store (i32.const 300) (i64.load (i32.add (call $calldata_offset) (i32.const 0)))) (i64.store (i32.const 308) (i64.load (i32.add (call $calldata_offset) (i32.const 8)))) (i32.store (i32.const 316) (i32.load (i32.add (call $calldata_offset) (i32.const 16))))";

struct Script {
    wats: Vec<(String, Vec<u32>)>,
    /// per template: names of functions that fail
    txs: Vec<Tx>,
    balances: Vec<u64>,
}
#[derive(Clone, Debug)]
enum Tx {
    Spawn(usize, &'static str, Option<u64>), // template, ctor, gas limit
    Call(usize, String),
    HostTransfer(u8, u8, u64),
    Increase(u8, u64),
    Commit,
    CallUnknown,
    CallNoInput(usize, String),
    Verify(usize),
}

fn script(r: &mut Rng) -> Script {
    let mut wats = vec![];
    for ti in 0..2 {
        let sizes = vec![8u32, 4, 20, 8];
        let mut funcs = String::new();
        funcs += &format!(r#"(func (export "init") {COPY_SELF} {})"#, "(call $set64 (i32.const 0) (i64.const 5))");
        let f = r.below(9);
        funcs += &format!(r#"(func (export "init_bad") {COPY_SELF} {})"#, body(r, &sizes, Some(f)));
        for k in 0..3 {
            funcs += &format!(r#"(func (export "ok{k}") {COPY_SELF} {})"#, body(r, &sizes, None));
        }
        for k in 0..4 {
            let f = r.below(9);
            funcs += &format!(r#"(func (export "bad{k}") {COPY_SELF} {})"#, body(r, &sizes, Some(f)));
        }
        funcs += r#"(func (export "param") (param i32) (call $set64 (i32.const 0) (i64.const 77)))"#;
        funcs += r#"(func (export "plain_bad") (call $set64 (i32.const 0) (i64.const 78)) unreachable)"#;
        let datas = data(100, &[1; 20]) + &data(132, &[2; 20]) + &data(200, &[0xEE; 20]) + &data(40, &[ti as u8 + 1, 9, 9]);
        let alloc = match r.below(6) {
            0 => "(if (i32.eq (local.get 0) (i32.const 21)) (then unreachable))",
            1 => "(if (i32.eq (local.get 0) (i32.const 21)) (then (call $set64 (i32.const 0) (i64.const 9))))",
            2 => "(if (i32.eq (local.get 0) (i32.const 21)) (then (return (i32.const 65530))))",
            _ => "",
        };
        wats.push((module(alloc, "(call $set64 (i32.const 0) (i64.const 3))", &datas, &funcs), sizes));
    }
    let mut txs = vec![Tx::Spawn(0, "init", None)];
    for _ in 0..r.range(6, 16) {
        let t = r.usize(2);
        let tx = match r.below(18) {
            0 => Tx::Spawn(t, "init", None),
            1 | 2 => Tx::Spawn(t, "init_bad", None),
            3 => Tx::Spawn(t, "ok0", None), // not a constructor
            4 => Tx::Spawn(t, "init", Some(*r.pick(&[0u64, 1, 1000, 50_000]))),
            5 | 6 | 7 => Tx::Call(t, format!("ok{}", r.below(3))),
            8..=10 => Tx::Call(t, format!("bad{}", r.below(4))),
            11 => Tx::Call(t, r.pick(&["nope", "init", "param", "svm_alloc", "memory"]).to_string()),
            12 => Tx::CallNoInput(t, "plain_bad".into()),
            13 => Tx::HostTransfer(r.range(1, 2) as u8, r.range(1, 2) as u8, r.below(50)),
            14 => Tx::Increase(r.range(1, 2) as u8, r.below(50)),
            15 => Tx::Commit,
            16 => Tx::CallUnknown,
            _ => Tx::Verify(t),
        };
        txs.push(tx);
    }
    Script { wats, txs, balances: vec![r.below(1000), r.below(1000)] }
}

/// `only`: the transactions to run (None: all). Returns which succeeded, the final snapshot and root.
fn play(s: &Script, only: Option<&[bool]>) -> Result<(Vec<bool>, Snap, (u64, State), u64), String> {
    let mut h = Host::new();
    let mut checks = 0;
    h.genesis(a20(1), s.balances[0], 1);
    h.genesis(a20(2), s.balances[1], 2);
    h.addrs.push(a20(0xEE));
    let mut ts = vec![];
    for (wat, sizes) in &s.wats {
        ts.push(h.deploy(wat, sizes, &["init".to_string(), "init_bad".to_string()]));
    }
    let mut done = vec![];
    for (i, tx) in s.txs.iter().enumerate() {
        if let Some(o) = only {
            if !o[i] {
                done.push(false);
                continue;
            }
        }
        trace(format!("{tx:?}"));
        let before = h.snap();
        let (ok, shape): (bool, String) = match tx {
            Tx::Spawn(t, ctor, gas) => {
                let mut cd = ts[*t].1.as_slice().to_vec();
                if i % 2 == 0 {
                    cd.push(0);
                }
                let env = match gas {
                    None => Envelope::default(),
                    Some(g) => Envelope::with_gas_limit(Gas::with(*g)),
                };
                let msg = build_spawn(&ts[*t].0, "name", ctor, &cd);
                let rec = panics(|| h.run.spawn(&env, &msg, &Context::default()));
                (matches!(&rec, Ok(x) if x.success), format!("{:?}", rec.map(|x| x.error)))
            }
            Tx::Call(t, f) | Tx::CallNoInput(t, f) => {
                let mut cd = ts[*t].1.as_slice().to_vec();
                if i % 3 == 0 {
                    cd.push(0);
                }
                if matches!(tx, Tx::CallNoInput(..)) {
                    cd.clear();
                }
                let msg = build_call(&ts[*t].1, f, &cd);
                let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
                (matches!(&rec, Ok(x) if x.success), format!("{:?}", rec.map(|x| x.error)))
            }
            Tx::Verify(t) => {
                let msg = build_call(&ts[*t].1, "ok0", &[1]);
                let rec = panics(|| h.run.verify(&Envelope::default(), &msg, &Context::default()));
                (matches!(&rec, Ok(x) if x.success), format!("{:?}", rec.map(|x| x.error)))
            }
            Tx::CallUnknown => {
                let msg = build_call(&a20(0xEE), "ok0", &[1]);
                let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
                (matches!(&rec, Ok(x) if x.success), format!("{:?}", rec.map(|x| x.error)))
            }
            Tx::HostTransfer(a, b, n) => (panics(|| h.run.transfer(&a20(*a), &a20(*b), *n)).is_ok(), String::new()),
            Tx::Increase(a, n) => (panics(|| h.run.increase_balance(&a20(*a), *n).unwrap()).is_ok(), String::new()),
            Tx::Commit => {
                h.run.commit().map_err(|e| format!("commit failed: {e:?}"))?;
                (true, String::new())
            }
        };
        trace(format!("  success={ok} {}", shape.chars().take(150).collect::<String>()));
        if !ok {
            let after = h.snap();
            check!(before == after, "failed {tx:?} changed the state: {}", diff(&before, &after));
            checks += 1;
        }
        done.push(ok);
    }
    let before = h.snap();
    h.run.commit().map_err(|e| format!("commit failed: {e:?}"))?;
    let after = h.snap();
    check!(before == after, "committing changed the state: {}", diff(&before, &after));
    let root = h.root();
    Ok((done, after, root, checks))
}

fn c07(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let s = script(r);
    let (done, snap, root, checks) = play(&s, None)?;
    trace("again, without the failed transactions");
    let (done2, snap2, root2, _) = play(&s, Some(&done))?;
    for (i, ok) in done.iter().enumerate() {
        check!(!*ok || done2[i], "{:?} succeeded after failed transactions, but fails without them", s.txs[i]);
    }
    check!(snap == snap2, "failed transactions left traces: {}", diff(&snap2, &snap));
    check!(root == root2, "failed transactions left traces: layer and root {root:?}, without them {root2:?}");
    Ok(checks + 2)
}

// ---------------------------------------------------------------- C08

const STORAGE_OPS: &[(&str, bool)] = &[("get32", false), ("get64", false), ("load160", false), ("set32", true), ("set64", true), ("store160", true), ("transfer", true), ("transfer_other", true), ("transfer_self", true)];

fn c08(i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut h = Host::new();
    h.genesis(a20(1), 1000, 1);
    h.genesis(a20(2), 1000, 2);
    let sizes = [4u32, 8, 20, 3];
    let init = r.u64() | 1;
    // Bodies of the operations, in a program.
    let op_wat = |op: &str| -> String {
        match op {
            "get32" => "(drop (call $get32 (i32.const 0)))".into(),
            "get64" => "(drop (call $get64 (i32.const 1)))".into(),
            "load160" => "(call $load160 (i32.const 2) (i32.const 500))".into(),
            "set32" => "(call $set32 (i32.const 0) (i32.const 99))".into(),
            "set64" => "(call $set64 (i32.const 1) (i64.const 99))".into(),
            "store160" => "(call $store160 (i32.const 100) (i32.const 2))".into(),
            "transfer" => "(call $transfer (i32.const 8192) (i32.const 100) (i64.const 1))".into(),
            "transfer_other" => "(call $transfer (i32.const 100) (i32.const 132) (i64.const 1))".into(),
            _ => "(call $transfer (i32.const 8192) (i32.const 8192) (i64.const 1))".into(),
        }
    };
    let op = STORAGE_OPS[(i % STORAGE_OPS.len() as u64) as usize];
    let phase = (i / STORAGE_OPS.len() as u64) % 4;
    trace(format!("operation {} phase {phase}", op.0));
    let datas = data(100, &[1; 20]) + &data(132, &[2; 20]);
    let prefix = *r.pick(&["", "(call $log (i32.const 0) (i32.const 4))", "(drop (call $static_alloc (i32.const 8)))"]);
    let alloc_body = if phase == 1 { format!("(if (i32.eq (local.get 0) (i32.const 33)) (then {prefix} {}))", op_wat(op.0)) } else { String::new() };
    let verify_body = format!("{prefix} {}", op_wat(op.0));
    let copy = "(i64.store (i32.const 8192) (i64.load (call $calldata_offset))) (i64.store (i32.const 8200) (i64.load (i32.add (call $calldata_offset) (i32.const 8)))) (i32.store (i32.const 8208) (i32.load (i32.add (call $calldata_offset) (i32.const 16))))";
    let funcs = format!(
        r#"(func (export "init") (call $set64 (i32.const 1) (i64.const {})))
           (func (export "go") {copy} {})
           (func (export "write") (call $set64 (i32.const 1) (i64.const 1234)))"#,
        init as i64,
        op_wat(op.0)
    );
    let (t, pa) = h.deploy(&module(&alloc_body, &verify_body, &datas, &funcs), &sizes, &["init".to_string()]);
    let rec = h.run.spawn(&Envelope::default(), &build_spawn(&t, "p", "init", &[]), &Context::default());
    check!(rec.success, "spawn: {:?}", rec.error);
    h.run.increase_balance(&pa, 500).unwrap();
    h.run.commit().unwrap();
    let before = h.snap();
    let mut checks = 0;
    match phase {
        0 => {
            // Every operation in every mode, directly.
            for mode in [AccessMode::AccessDenied, AccessMode::ImmutableOnly, AccessMode::FullAccess] {
                for (op, write) in STORAGE_OPS {
                    let mem = memory();
                    let env = Env { rt: h.rt.clone(), gs: h.gs.clone(), memory: mem };
                    env.poke(100, &[1; 20]);
                    env.poke(132, &[2; 20]);
                    env.poke(8192, pa.as_slice());
                    env.poke(500, &[0x5A; 20]);
                    let fe = env.env(&pa, mode);
                    let m0 = env.peek();
                    let res = panics(|| match *op {
                        "get32" => drop(vmcalls::get32(&fe, 0)),
                        "get64" => drop(vmcalls::get64(&fe, 1)),
                        "load160" => vmcalls::load160(&fe, 2, 500),
                        "set32" => vmcalls::set32(&fe, 0, 99),
                        "set64" => vmcalls::set64(&fe, 1, 99),
                        "store160" => vmcalls::store160(&fe, 100, 2),
                        "transfer" => vmcalls::svm_transfer(&fe, 8192, 100, 1),
                        "transfer_other" => vmcalls::svm_transfer(&fe, 100, 132, 1),
                        _ => vmcalls::svm_transfer(&fe, 8192, 8192, 1),
                    });
                    let allowed = match mode {
                        AccessMode::AccessDenied => false,
                        AccessMode::ImmutableOnly => !*write,
                        AccessMode::FullAccess => *op != "transfer_other",
                    };
                    check!(res.is_ok() == allowed, "{op} in mode {mode:?}: expected allowed={allowed}, got {res:?}");
                    let after = h.snap();
                    if !allowed || !*write {
                        check!(after == before, "{op} in mode {mode:?} changed the state: {}", diff(&before, &after));
                    }
                    if !allowed {
                        check!(env.peek() == m0, "{op} in mode {mode:?} leaked data into memory");
                    }
                    // back to where we were
                    let mut gs = h.gs.clone();
                    h.rt.block_on(gs.rollback()).unwrap();
                    check!(h.snap() == before, "driver: rollback");
                    checks += 1;
                }
            }
        }
        1 => {
            // While allocating memory for the input.
            let mut cd = pa.as_slice().to_vec();
            cd.resize(33, 0);
            let msg = build_call(&pa, "write", &cd);
            let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
            check!(!matches!(&rec, Ok(x) if x.success), "{} was possible while allocating memory for the input of a call", op.0);
            let after = h.snap();
            check!(after == before, "{} while allocating memory changed the state: {}", op.0, diff(&before, &after));
            // Without that, the function itself has full access (input of another length).
            let msg = build_call(&pa, "write", &cd[..21]);
            let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
            check!(matches!(&rec, Ok(x) if x.success), "a function called with input has no access: {:?}", rec.map(|x| x.error));
            check!(h.acc(&pa).unwrap().vars[1] == 1234u64.to_le_bytes(), "a function called with input wrote nothing");
            // The same while spawning.
            let before = h.snap();
            let msg = build_spawn(&t, "p", "init", &cd);
            let rec = panics(|| h.run.spawn(&Envelope::default(), &msg, &Context::default()));
            check!(!matches!(&rec, Ok(x) if x.success), "{} was possible while allocating memory for the input of a constructor", op.0);
            let after = h.snap();
            check!(after == before, "{} while allocating memory changed the state: {}", op.0, diff(&before, &after));
            checks += 4;
        }
        2 => {
            // While verifying, with and without verify data.
            for vd in [vec![], vec![1, 2, 3]] {
                let mut tx = svm_codec::Codec::decode_bytes(build_call(&pa, "write", &[])).unwrap();
                let _: &svm_types::Transaction = &tx;
                tx.verifydata = vd;
                let msg = svm_codec::Codec::encode_to_vec(&tx);
                let rec = panics(|| h.run.verify(&Envelope::default(), &msg, &Context::default()));
                check!(!matches!(&rec, Ok(x) if x.success), "{} was possible while verifying", op.0);
                let after = h.snap();
                check!(after == before, "{} while verifying changed the state: {}", op.0, diff(&before, &after));
                checks += 1;
            }
        }
        _ => {
            // In a call itself everything works, with or without input.
            let msg = build_call(&pa, "go", pa.as_slice());
            let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
            let want = op.0 != "transfer_other";
            check!(matches!(&rec, Ok(x) if x.success) == want, "{} in a call: expected success={want}, got {:?}", op.0, rec.map(|x| x.error));
            let msg = build_call(&pa, "write", &[]);
            let rec = panics(|| h.run.call(&Envelope::default(), &msg, &Context::default()));
            check!(matches!(&rec, Ok(x) if x.success), "a function called without input has no access");
            check!(h.acc(&pa).unwrap().vars[1] == 1234u64.to_le_bytes(), "a function called without input wrote nothing");
            checks += 2;
        }
    }
    Ok(checks)
}

// ---------------------------------------------------------------- C09

fn c09(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut h = Host::new();
    let pool = ["init", "initialize", "ini", "Init", "INIT", "init ", " init", "a", "b", "ab", "", "transfer", "svm_init", "init_", "ctor", "ctor2"];
    // Exported functions, each leaving its own mark.
    let mut names: Vec<String> = vec![];
    for n in pool {
        if r.chance(1, 2) {
            names.push(n.to_string());
        }
    }
    if names.is_empty() {
        names.push("init".into());
    }
    let mut funcs = String::new();
    for (k, n) in names.iter().enumerate() {
        // variable 0: the function that ran last; variable 1: all that ever ran
        funcs += &format!(r#"(func $f{k} (export "{n}") (call $set64 (i32.const 0) (i64.const {})) (call $set64 (i32.const 1) (i64.or (call $get64 (i32.const 1)) (i64.const {}))))"#, k + 1, 1u64 << k);
    }
    let start = r.chance(1, 6);
    if start {
        // one that would run whenever the program is instantiated
        funcs += &format!("(start $f{})", r.usize(names.len()));
    }
    let mut ctors: Vec<String> = vec![];
    let p = r.range(0, 3);
    for n in &names {
        if r.chance(p, 4) {
            ctors.push(n.clone());
        }
    }
    if r.chance(1, 3) {
        ctors.push("not_exported".into());
    }
    if r.chance(1, 4) && !ctors.is_empty() {
        let c = ctors[0].clone();
        ctors.push(c);
    }
    for k in (1..ctors.len()).rev() {
        ctors.swap(k, r.usize(k + 1));
    }
    trace(format!("exports {names:?} constructors {ctors:?}"));
    let wat = module("", "", "", &funcs);
    if start {
        let code = wat::parse_str(&wat.replace(r#"(func (export "svm_verify") )"#, r#"(func (export "svm_verify") (result i32) i32.const 0)"#)).unwrap();
        trace("with a start function");
        let msg = build_deploy(0, "T", FixedLayout::from_byte_sizes(0, &[8, 8]), &ctors, WasmFile::Binary(&code));
        if h.run.validate_deploy(&msg).is_err() {
            return Ok(1);
        }
    }
    let (t, pa) = h.deploy(&wat, &[8, 8], &ctors);
    // The account is there before anything is called.
    let mut checks = 0;
    let mut exists = false;
    let mut tries: Vec<(bool, String)> = vec![];
    for n in pool.iter().map(|x| x.to_string()).chain(["not_exported".to_string(), "svm_verify".to_string()]) {
        tries.push((true, n.clone()));
        tries.push((false, n));
    }
    for k in (1..tries.len()).rev() {
        tries.swap(k, r.usize(k + 1));
    }
    for (spawn, n) in tries {
        let is_ctor = ctors.contains(&n);
        let exported = names.contains(&n);
        let mark = names.iter().position(|x| *x == n).map(|k| k as u64 + 1);
        if !spawn && !exists {
            h.run.create_account(&pa, t, "made".into(), 0, 0).unwrap();
            exists = true;
        }
        let before = h.snap();
        let input: &[u8] = if r.chance(1, 2) { &[1, 2] } else { &[] };
        let rec = if spawn {
            let msg = build_spawn(&t, "nm", &n, input);
            panics(|| h.run.spawn(&Envelope::default(), &msg, &Context::default())).map(|x| (x.success, x.error))
        } else {
            let msg = build_call(&pa, &n, input);
            panics(|| h.run.call(&Envelope::default(), &msg, &Context::default())).map(|x| (x.success, x.error))
        };
        let success = matches!(&rec, Ok((true, _)));
        let after = h.snap();
        let what = if spawn { "spawning" } else { "calling" };
        checks += 1;
        if n == "svm_verify" {
            // A function of the program like any other, which does nothing.
            check!(!(spawn && success), "spawning ran svm_verify, which is not a constructor");
            if !success {
                check!(before == after, "{what} {n:?} failed but changed the state: {}", diff(&before, &after));
            }
            continue;
        }
        let want = exported && (spawn == is_ctor);
        check!(success == want, "{what} {n:?} (constructors {ctors:?}, exports {names:?}): expected success={want}, got {rec:?}");
        if want {
            exists = true;
            let a = h.acc(&pa).unwrap();
            check!(a.vars[0] == mark.unwrap().to_le_bytes(), "{what} {n:?} did not run it");
            let bits = |v: &[u8]| u64::from_le_bytes(v.try_into().unwrap());
            let was = before[pa.as_slice()].as_ref().map_or(0, |x| bits(&x.vars[1]));
            let others = bits(&a.vars[1]) & !was & !(1 << (mark.unwrap() - 1));
            check!(others == 0, "{what} {n:?} ran other functions: {:?}", (0..names.len()).filter(|k| others >> k & 1 == 1).map(|k| &names[k]).collect::<Vec<_>>());
        } else {
            check!(before == after, "{what} {n:?} was refused but changed the state: {}", diff(&before, &after));
            if spawn && !is_ctor {
                check!(matches!(&rec, Ok((_, Some(RuntimeError::FuncNotCtor { .. })))), "spawning {n:?}, not a constructor: {rec:?}");
            }
            if !spawn && is_ctor {
                check!(matches!(&rec, Ok((_, Some(RuntimeError::FuncNotAllowed { .. })))), "calling the constructor {n:?}: {rec:?}");
            }
        }
    }
    Ok(checks)
}

// ---------------------------------------------------------------- C10

fn c10(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut h = Host::new();
    let mut checks = 0;
    // Gas arithmetic
    for _ in 0..200 {
        let (a, b) = (r.edge(), r.edge());
        let b = if r.chance(1, 3) { a.wrapping_add(r.below(3)).wrapping_sub(1) } else { b };
        match Gas::with(a) - b {
            Ok(left) => {
                check!(a >= b, "{a} gas minus {b} gave {left:?}");
                check!(left.is_some() && left.unwrap() == a - b, "{a} gas minus {b} left {left:?}");
            }
            Err(_) => check!(a < b, "{a} gas minus {b} ran out"),
        }
        check!(matches!(Gas::new() - b, Ok(g) if g.is_none()), "unlimited gas minus {b} is limited");
        check!((Gas::with(a) < b) == (a < b) && (Gas::with(a) >= b) == (a >= b), "comparing {a} gas to {b}");
        check!(!(Gas::new() < b), "unlimited gas is less than {b}");
        checks += 1;
    }
    // A constructor of random cost.
    let mut bodies = String::new();
    for _ in 0..r.below(60) {
        bodies += *r.pick(&["nop", "(drop (i32.const 1))", "(drop (i64.add (i64.const 1) (i64.const 2)))", "(call $log (i32.const 0) (i32.const 1))", "(if (i32.const 1) (then nop nop) (else nop))"]);
        bodies += " ";
    }
    let helper = r#"(func $helper (drop (i32.const 5)) (call $set64 (i32.const 0) (i64.const 2)))"#;
    let funcs = format!(r#"{helper} (func (export "init") {bodies} (call $helper)) (func (export "cheap"))"#);
    let wat = module("", "", "", &funcs);
    let code = wat::parse_str(&wat).unwrap();
    let dmsg = build_deploy(0, "T", FixedLayout::from_byte_sizes(0, &[8]), &["init".to_string(), "cheap".to_string()], WasmFile::Binary(&code));
    let price = svm_gas::transaction::deploy(&dmsg);
    let code_section = svm_types::CodeSection::new_fixed(code.clone(), 0);
    let t = svm_types::compute_template_addr(&code_section);
    let exists = |h: &Host| {
        let ts = svm_state::TemplateStorage::load(h.gs.clone(), &t).unwrap();
        h.rt.block_on(ts.sections()).is_ok()
    };
    check!(!exists(&h), "driver: template exists");
    let limits = |r: &mut Rng, p: u64| -> Vec<u64> {
        let mut v = vec![0, 1, p - 1, p.saturating_sub(r.range(1, 2000)), p / 2, r.below(p)];
        v.swap(0, r.usize(6));
        v
    };
    for l in limits(r, price) {
        trace(format!("deploy, price {price}, limit {l}"));
        let rec = h.run.deploy(&Envelope::with_gas_limit(Gas::with(l)), &dmsg, &Context::default());
        check!(!rec.success && rec.error == Some(RuntimeError::OOG), "deploying for {price} with limit {l}: {:?}", rec.error);
        check!(!exists(&h), "a deployment out of gas stored its template");
        checks += 1;
    }
    let gs = h.gs.clone();
    for l in [Some(price), Some(price + 1), Some(price + r.below(1 << 40)), Some(u64::MAX), None] {
        trace(format!("deploy, price {price}, limit {l:?}"));
        let g = l.map(Gas::with).unwrap_or(Gas::new());
        let rec = h.run.deploy(&Envelope::with_gas_limit(g), &dmsg, &Context::default());
        check!(rec.success, "deploying for {price} with limit {l:?}: {:?}", rec.error);
        check!(rec.gas_used.is_some() && rec.gas_used.unwrap() == price, "deploying for {price} used {:?}", rec.gas_used);
        check!(exists(&h), "a deployment stored nothing");
        let mut gs = gs.clone();
        h.rt.block_on(gs.rollback()).unwrap();
        checks += 1;
    }
    let (t2, pa) = h.deploy_bin(&code, &[8], &["init".to_string(), "cheap".to_string()]);
    check!(t2 == t, "driver: template address");
    h.run.commit().unwrap();
    let program = Program::new(&code, false).map_err(|e| format!("{e:?}"))?;
    let resolver = PriceResolverRegistry::default().get(0).unwrap();
    let prices = ProgramPricing::new(resolver).visit(&program).map_err(|e| format!("{e:?}"))?;
    for ctor in ["init", "cheap"] {
        let n = r.usize(40);
        let input = r.bytes(n);
        let msg = build_spawn(&t, &r.text(10), ctor, &input);
        let fi = program.exports().get(ctor).unwrap();
        let payload = svm_gas::transaction::spawn(&msg);
        let total = payload + prices.get(fi) as u64;
        let mut ls = limits(r, total);
        ls.push(payload);
        ls.push(payload - 1);
        if total > payload {
            ls.push(payload + r.below(total - payload));
        }
        for l in ls {
            if l >= total {
                continue;
            }
            trace(format!("spawn {ctor}, price {payload} + {}, limit {l}", total - payload));
            let before = h.snap();
            let root = h.rt.block_on(h.gs.clone().current_layer()).unwrap();
            let rec = h.run.spawn(&Envelope::with_gas_limit(Gas::with(l)), &msg, &Context::default());
            check!(!rec.success && rec.error == Some(RuntimeError::OOG), "spawning for {total} ({payload} for the message) with limit {l}: {:?}", rec.error);
            check!(h.snap() == before, "a spawn out of gas changed the state");
            check!(h.rt.block_on(h.gs.clone().current_layer()).unwrap() == root, "a spawn out of gas committed something");
            checks += 1;
        }
        for l in [Some(total + 1), Some(total + 1 + r.below(100)), Some(total.saturating_mul(2)), Some(u64::MAX), Some(u64::MAX - 1), None] {
            trace(format!("spawn {ctor}, price {payload} + {}, limit {l:?}", total - payload));
            let g = l.map(Gas::with).unwrap_or(Gas::new());
            let rec = h.run.spawn(&Envelope::with_gas_limit(g), &msg, &Context::default());
            check!(rec.success, "spawning for {total} with limit {l:?}: {:?}", rec.error);
            check!(h.acc(&pa).is_some(), "spawning created no account");
            checks += 1;
        }
        h.run.rewind(svm_types::Layer(0)).unwrap();
        check!(h.acc(&pa).is_none(), "driver: account is back");
    }
    Ok(checks)
}

// ---------------------------------------------------------------- C05 (host functions)

fn c05(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut h = Host::new();
    let n = r.range(2, 7);
    let sizes: Vec<u32> = (0..n).map(|_| *r.pick(&[4u32, 8, 20, 4, 8, 20, 7, 1, 40])).collect();
    trace(format!("layout {sizes:?}"));
    let mut model: Vec<(Address, Vec<Vec<u8>>)> = vec![];
    for k in 0..2u8 {
        let wat = module("", "", &data(0, &[k; 3]), "");
        let (t, pa) = h.deploy(&wat, &sizes, &[]);
        h.run.create_account(&pa, t, format!("n{k}"), r.edge(), 3).unwrap();
        model.push((pa, sizes.iter().map(|s| vec![0; *s as usize]).collect()));
    }
    let base = h.snap();
    let mut checks = 0;
    let mem = memory();
    let env = Env { rt: h.rt.clone(), gs: h.gs.clone(), memory: mem };
    let envs: Vec<FuncEnv> = model.iter().map(|m| env.env(&m.0, AccessMode::FullAccess)).collect();
    for _ in 0..r.range(5, 30) {
        let a = r.usize(2);
        let v = r.usize(sizes.len());
        let fe = &envs[a];
        match sizes[v] {
            4 => {
                let x = r.edge() as u32;
                trace(format!("account {a}: set32 {v} = {x}"));
                vmcalls::set32(fe, v as u32, x);
                model[a].1[v] = x.to_le_bytes().to_vec();
            }
            8 => {
                let x = r.edge();
                trace(format!("account {a}: set64 {v} = {x}"));
                vmcalls::set64(fe, v as u32, x);
                model[a].1[v] = x.to_le_bytes().to_vec();
            }
            20 => {
                let x = r.bytes(20);
                let at = *r.pick(&[0usize, 1, 77, 65516]);
                trace(format!("account {a}: store160 {v} from {at} = {x:?}"));
                env.poke(at, &x);
                vmcalls::store160(fe, at as u32, v as u32);
                model[a].1[v] = x;
            }
            _ => {}
        }
        for a in 0..2 {
            for v in 0..sizes.len() {
                let want = &model[a].1[v];
                let fe = &envs[a];
                match sizes[v] {
                    4 => {
                        let g = vmcalls::get32(fe, v as u32);
                        check!(g.to_le_bytes()[..] == want[..], "account {a}: get32 {v} returned {g}, expected {want:?}");
                    }
                    8 => {
                        let g = vmcalls::get64(fe, v as u32);
                        check!(g.to_le_bytes()[..] == want[..], "account {a}: get64 {v} returned {g}, expected {want:?}");
                    }
                    20 => {
                        let at = 300 + r.usize(5);
                        let mut m = env.peek();
                        vmcalls::load160(fe, v as u32, at as u32);
                        m[at..at + 20].copy_from_slice(want);
                        check!(env.peek() == m, "account {a}: load160 {v} gave something else than {want:?}");
                    }
                    _ => {}
                }
                checks += 1;
            }
        }
        let mut want = base.clone();
        for m in &model {
            want.get_mut(m.0.as_slice()).unwrap().as_mut().unwrap().vars = m.1.clone();
        }
        let after = h.snap();
        check!(after == want, "other effects: {}", diff(&want, &after));
    }
    Ok(checks)
}

fn main() {
    vcommon::main(&[
        Prop { id: "C05", case: c05, quick: 300, thorough: 20000 },
        Prop { id: "C06", case: c06, quick: 400, thorough: 20000 },
        Prop { id: "C07", case: c07, quick: 250, thorough: 20000 },
        Prop { id: "C08", case: c08, quick: 300, thorough: 20000 },
        Prop { id: "C09", case: c09, quick: 250, thorough: 20000 },
        Prop { id: "C10", case: c10, quick: 300, thorough: 20000 },
    ])
}
