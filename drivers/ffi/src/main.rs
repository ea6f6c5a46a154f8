//! Concrete driver for the C interface: C19.
use std::ffi::c_void;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Once;

use svm_codec::Codec;
use svm_layout::FixedLayout;
use svm_runtime::Runtime;
use svm_runtime_ffi::*;
use svm_runtime_testing::{build_call, build_deploy, build_spawn, create_memory_runtime, WasmFile};
use svm_types::{Address, BytesPrimitive, Context, Envelope, Layer, Receipt, TemplateAddr};
use vcommon::{check, panics, trace, Prop, Rng, Scratch};

/// Takes buffers of the given size and scribbles over them: what was freed and is still used shows, and what was freed
/// twice is handed out twice.
fn churn(size: usize) -> Result<(), String> {
    let mut bs: Vec<Vec<u8>> = vec![];
    for k in 0..6u8 {
        bs.push(vec![0xD0 + k; size]);
    }
    for k in 0..6 {
        check!(bs[k].iter().all(|x| *x == 0xD0 + k as u8), "two owners of one buffer: it was freed twice");
    }
    Ok(())
}

/// What C sees of a result.
#[repr(C)]
struct Raw {
    receipt: *mut u8,
    error: *mut u8,
    buf_size: u32,
}

struct Seen {
    /// -1 plain success, 0 receipt, 1 error
    kind: i8,
    bytes: Vec<u8>,
}

fn look(r: &svm_result_t) -> Result<Seen, String> {
    assert_eq!(std::mem::size_of::<svm_result_t>(), std::mem::size_of::<Raw>());
    let w = unsafe { &*(r as *const svm_result_t as *const Raw) };
    check!(w.receipt.is_null() || w.error.is_null(), "a result with both a receipt and an error");
    check!(r.is_ok() == w.error.is_null() && r.is_err() != r.is_ok(), "is_ok/is_err disagree with the error pointer");
    let p = if !w.receipt.is_null() { w.receipt } else { w.error };
    if p.is_null() {
        check!(w.buf_size == 0, "a result without a buffer has size {}", w.buf_size);
        check!(r.receipt().is_none(), "a receipt out of nowhere");
        return Ok(Seen { kind: -1, bytes: vec![] });
    }
    let bytes = unsafe { std::slice::from_raw_parts(p, w.buf_size as usize) }.to_vec();
    if !w.receipt.is_null() {
        check!(r.receipt() == Some(&bytes[..]), "receipt() gives something else than the buffer");
    } else {
        check!(r.receipt().is_none(), "an error has a receipt");
        check!(std::str::from_utf8(&bytes).is_ok() && !bytes.is_empty(), "an error without a readable message: {bytes:?}");
    }
    Ok(Seen { kind: if w.receipt.is_null() { 1 } else { 0 }, bytes })
}

fn same(res: &svm_result_t, s: &Seen, when: &str) -> Result<(), String> {
    let w = unsafe { &*(res as *const svm_result_t as *const Raw) };
    let p = if w.receipt.is_null() { w.error } else { w.receipt };
    if !p.is_null() {
        let now = unsafe { std::slice::from_raw_parts(p, w.buf_size as usize) };
        check!(now == &s.bytes[..], "{when} spoils it");
    }
    Ok(())
}

/// Gets rid of a result in one of the ways there are.
fn dispose(r: &mut Rng, res: svm_result_t, s: &Seen) -> Result<(), String> {
    let n = s.bytes.len();
    churn(n)?;
    same(&res, s, "using other memory")?;
    match r.below(4) {
        0 => {
            trace("  svm_free_result");
            unsafe { svm_free_result(res) };
        }
        1 => {
            trace("  clone, drop both");
            let c = res.clone();
            let t = look(&c)?;
            check!(t.kind == s.kind && t.bytes == s.bytes, "the copy differs");
            if r.chance(1, 2) {
                drop(res);
                churn(n)?;
                same(&c, s, "dropping the original of a copy")?;
                drop(c);
            } else {
                drop(c);
                churn(n)?;
                same(&res, s, "dropping a copy of it")?;
                drop(res);
            }
        }
        2 if s.kind < 1 => {
            trace("  unwrap");
            match res.unwrap() {
                None => check!(s.kind == -1, "unwrap loses the receipt"),
                Some(b) => {
                    check!(s.kind == 0, "unwrap makes up a receipt");
                    churn(n)?;
                    check!(b == s.bytes, "the receipt that unwrap gives is freed memory");
                }
            }
        }
        2 => {
            trace("  unwrap of an error");
            let k = s.bytes.clone();
            let p = panics(|| res.unwrap());
            check!(matches!(&p, Err(m) if m.as_bytes().windows(k.len().max(1)).any(|w| w == &k[..])), "unwrap of an error: {p:?}");
        }
        _ => {
            trace("  drop");
            drop(res);
        }
    }
    churn(n)
}

const WAT: &str = r#"(module
  (func $get64 (import "svm" "svm_get64") (param i32) (result i64))
  (func $set64 (import "svm" "svm_set64") (param i32 i64))
  (memory (export "memory") 1)
  (func (export "svm_alloc") (param i32) (result i32) i32.const 0)
  (func (export "svm_verify") (result i32) i32.const 0)
  (func (export "init") i32.const 0 i64.const 7 call $set64)
  (func (export "add") i32.const 0 i32.const 0 call $get64 i64.const 1 i64.add call $set64)
  (func (export "fail") unreachable))"#;

fn template() -> Vec<u8> {
    build_deploy(0, "T", FixedLayout::from_byte_sizes(0, &[8]), &["init".to_string()], WasmFile::Text(WAT))
}

/// A template of more than 64 KiB, and of more than 1 MiB: lengths that 16 and 20 bits don't hold.
fn big_template(n: usize) -> &'static [u8] {
    static ONCE: Once = Once::new();
    static mut BIG: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
    ONCE.call_once(|| {
        for (k, size) in [66_000, 1_100_000].iter().enumerate() {
            let wat = WAT.replace("(memory (export \"memory\") 1)", &format!("(memory (export \"memory\") 20) (data (i32.const 64) \"{}\")", "x".repeat(*size)));
            let m = build_deploy(0, "B", FixedLayout::from_byte_sizes(0, &[8]), &["init".to_string()], WasmFile::Text(&wat));
            unsafe { BIG[k] = m };
        }
    });
    unsafe { &BIG[n] }
}

struct S {
    live: Vec<*mut c_void>,
    /// Beside each of them a runtime of its own, operated directly.
    twins: Vec<Runtime>,
    dead: Vec<*mut c_void>,
    dir: Scratch,
    dbs: u32,
    addrs: Vec<Address>,
    accounts: Vec<(usize, Address, u64, u128)>,
    template: Option<TemplateAddr>,
    spawned: Option<Address>,
    boxes: Vec<Box<u64>>,
}

impl S {
    fn handle(&mut self, r: &mut Rng) -> (*mut c_void, Option<usize>) {
        match r.below(12) {
            0 => (std::ptr::null_mut(), None),
            1 if !self.dead.is_empty() => (*r.pick(&self.dead), None),
            2 => {
                self.boxes.push(Box::new(r.u64()));
                (&mut **self.boxes.last_mut().unwrap() as *mut u64 as *mut c_void, None)
            }
            3 if !self.live.is_empty() => ((*r.pick(&self.live) as usize + 8) as *mut c_void, None),
            4 if !self.live.is_empty() => ((*r.pick(&self.live) as usize ^ 1 << r.range(3, 61)) as *mut c_void, None),
            _ if self.live.is_empty() => (16 as *mut c_void, None),
            _ => {
                let i = r.usize(self.live.len());
                (self.live[i], Some(i))
            }
        }
    }
}

enum Want {
    Failure,
    Success,
    Receipt(Vec<u8>),
}

impl Want {
    fn of(x: Result<Result<(), String>, String>) -> Want {
        match x {
            Ok(Ok(())) => Want::Success,
            _ => Want::Failure,
        }
    }
}

/// A C function as C calls it: nothing may come out of it but its value.
fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    trace(what);
    panics(f).map_err(|m| format!("{what} unwinds into its caller: {m}"))
}

/// Memory in use, in bytes.
fn resident() -> usize {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) * 4096
}

static FIRST: Once = Once::new();
static OPEN: AtomicUsize = AtomicUsize::new(0);

fn c19(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut s = S { live: vec![], twins: vec![], dead: vec![], dir: Scratch::new(), dbs: 0, addrs: vec![], accounts: vec![], template: None, spawned: None, boxes: vec![] };
    let mut early = Ok(());
    FIRST.call_once(|| {
        early = (|| {
            let mut p = std::ptr::null_mut();
            let res = call("svm_runtime_create before svm_init", || unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) })?;
            check!(look(&res)?.kind == 1, "a runtime was created before svm_init");
            let res = call("svm_init", || svm_init())?;
            check!(res.is_ok(), "svm_init failed");
            drop(res);
            // what is handed out and freed does not pile up
            for round in 0..2 {
                let before = resident();
                for k in 0..40_000u32 {
                    let res = svm_runtime_destroy(std::ptr::null_mut());
                    unsafe { svm_free_result(res) };
                    let res = svm_result_t::new_receipt(&[7; 48]);
                    match k % 3 {
                        0 => unsafe { svm_free_result(res) },
                        1 => drop(res.unwrap()),
                        _ => drop(res.clone()),
                    }
                }
                let more = resident().saturating_sub(before);
                check!(round == 0 || more < 1 << 20, "40000 errors and 40000 receipts handed out and freed take {more} bytes more each time");
            }
            Ok(())
        })()
    });
    early?;
    let res = steps(&mut s, r).and_then(|n| {
        // whatever happened, the library is still usable
        let res = call("svm_init", || svm_init())?;
        check!(res.is_ok(), "svm_init fails");
        let mut p = std::ptr::null_mut();
        let res = call("svm_runtime_create in memory", || unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) })?;
        check!(res.is_ok(), "no runtime can be created any more");
        OPEN.fetch_add(1, SeqCst);
        s.live.push(p);
        Ok(n)
    });
    for p in std::mem::take(&mut s.live) {
        if let Ok(x) = panics(|| svm_runtime_destroy(p)) {
            if x.is_ok() {
                OPEN.fetch_sub(1, SeqCst);
            }
        }
    }
    res
}

fn steps(s: &mut S, r: &mut Rng) -> Result<u64, String> {
    for _ in 0..4 {
        let a = Address::new(r.bytes(20));
        s.addrs.push(a);
    }
    let mut checks = 0;
    let n = r.range(5, 40);
    for _ in 0..n {
        checks += 1;
        let (h, at) = s.handle(r);
        // None: either; Some(true): an error is due; Some(false): a success is due
        let mut due: Option<bool> = if at.is_none() { Some(true) } else { None };
        let a = *r.pick(&s.addrs);
        let addr = a.as_slice().to_vec();
        // what the runtime's own operation gives with these arguments
        let mut want: Option<Want> = None;
        let mut twin = at.map(|i| &mut s.twins[i]);
        let res = match r.below(20) {
            0 => {
                due = Some(false);
                call("svm_init", || svm_init())?
            }
            1 | 2 => {
                if s.live.len() >= 2 && r.chance(4, 5) {
                    continue;
                }
                // the slot for the handle holds anything before
                let mut p: *mut c_void = match r.below(3) {
                    0 => 24 as *mut c_void,
                    1 if !s.live.is_empty() => *r.pick(&s.live),
                    _ => std::ptr::null_mut(),
                };
                let kind = r.below(6);
                let path: Vec<u8> = match kind {
                    0 => b"sqlite://\xff\xfe/db".to_vec(),
                    1 => format!("sqlite://{}/none/at/all/db.sqlite", s.dir.0.display()).into_bytes(),
                    2 => format!("sqlite://{}/{}.sqlite?mode=rwc", s.dir.0.display(), s.dbs).into_bytes(),
                    3 => b"nonsense".to_vec(),
                    _ => vec![],
                };
                due = Some(matches!(kind, 0 | 1 | 3));
                let res = if kind >= 4 {
                    call("svm_runtime_create in memory", || unsafe { svm_runtime_create(&mut p, std::ptr::null(), 0) })?
                } else {
                    s.dbs += 1;
                    call(&format!("svm_runtime_create {:?}", String::from_utf8_lossy(&path)), || unsafe { svm_runtime_create(&mut p, path.as_ptr(), path.len() as u32) })?
                };
                if res.is_ok() {
                    check!(!p.is_null() && p as usize != 24, "no handle written");
                    check!(!s.live.contains(&p), "the handle of a live runtime was given out again");
                    s.dead.retain(|q| *q != p);
                    s.live.push(p);
                    s.twins.push(create_memory_runtime());
                    OPEN.fetch_add(1, SeqCst);
                }
                res
            }
            3 => {
                due = Some(at.is_none());
                let res = call(&format!("svm_runtime_destroy {:?}", at), || svm_runtime_destroy(h))?;
                if let (Some(i), true) = (at, res.is_ok()) {
                    OPEN.fetch_sub(1, SeqCst);
                    let p = s.live.remove(i);
                    s.twins.remove(i);
                    s.dead.push(p);
                    s.accounts.clear();
                    s.template = None;
                    s.spawned = None;
                }
                res
            }
            4 | 5 => {
                let n = call("svm_runtimes_count", || svm_runtimes_count())?;
                check!(n == OPEN.load(SeqCst) as u64, "svm_runtimes_count gives {n}, there are {}", OPEN.load(SeqCst));
                continue;
            }
            6 => {
                let m = match r.below(4) {
                    0 if r.chance(1, 4) => big_template(r.chance(1, 6) as usize).to_vec(),
                    0 => template(),
                    1 => vec![],
                    2 => {
                        let mut t = template();
                        let k = r.usize(t.len());
                        t[k] = r.u64() as u8;
                        t.truncate(r.usize(t.len()) + 1);
                        t
                    }
                    _ => {
                        let n = r.usize(80);
                        r.bytes(n)
                    }
                };
                let (p, l) = (m.as_ptr(), m.len() as u32);
                let what = r.below(3);
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| match what {
                        0 => t.validate_deploy(&m).map_err(|e| e.to_string()),
                        1 => t.validate_spawn(&m).map_err(|e| e.to_string()),
                        _ => t.validate_call(&m).map_err(|e| e.to_string()),
                    })));
                }
                match what {
                    0 => call("svm_validate_deploy", || unsafe { svm_validate_deploy(h, p, l) })?,
                    1 => call("svm_validate_spawn", || unsafe { svm_validate_spawn(h, p, l) })?,
                    _ => call("svm_validate_call", || unsafe { svm_validate_call(h, p, l) })?,
                }
            }
            7 | 8 | 9 | 10 => {
                let mut env = Envelope::with_principal(Address::new(r.bytes(20))).encode_to_vec();
                let mut ctx = Context::default().encode_to_vec();
                if r.chance(1, 5) {
                    env = r.bytes(env.len());
                }
                if r.chance(1, 5) {
                    ctx = r.bytes(ctx.len());
                }
                let what = r.below(4);
                let mut m = match (what, s.template, s.spawned) {
                    (0, _, _) if r.chance(1, 8) => big_template(r.chance(1, 6) as usize).to_vec(),
                    (0, _, _) => template(),
                    (1, Some(t), _) => build_spawn(&t, "acc", *r.pick(&["init", "add", "nope"]), &[]),
                    (_, _, Some(x)) => build_call(&x, *r.pick(&["add", "fail", "init", "nope"]), &[]),
                    _ => {
                        let n = r.usize(60);
                        r.bytes(n)
                    }
                };
                let exact = r.chance(3, 4);
                if !exact && !m.is_empty() {
                    let k = r.usize(m.len());
                    m[k] ^= 1 << r.below(8);
                    if r.chance(1, 2) {
                        m.truncate(k);
                    }
                }
                let (e, p, l, c) = (env.as_ptr(), m.as_ptr(), m.len() as u32, ctx.as_ptr());
                if let Some(t) = &mut twin {
                    want = Some(match panics(|| (Envelope::decode_bytes(&env), Context::decode_bytes(&ctx))) {
                        Ok((Ok(e), Ok(c))) => match panics(|| match what {
                            0 => t.deploy(&e, &m, &c).encode_to_vec(),
                            1 => t.spawn(&e, &m, &c).encode_to_vec(),
                            2 => t.call(&e, &m, &c).encode_to_vec(),
                            _ => t.verify(&e, &m, &c).encode_to_vec(),
                        }) {
                            Ok(b) => Want::Receipt(b),
                            Err(_) => Want::Failure,
                        },
                        _ => Want::Failure,
                    });
                }
                let res = match what {
                    0 => call("svm_deploy", || unsafe { svm_deploy(h, e, p, l, c) })?,
                    1 => call("svm_spawn", || unsafe { svm_spawn(h, e, p, l, c) })?,
                    2 => call("svm_call", || unsafe { svm_call(h, e, p, l, c) })?,
                    _ => call("svm_verify", || unsafe { svm_verify(h, e, p, l, c) })?,
                };
                if let Some(b) = res.receipt() {
                    let rec = panics(|| Receipt::decode_bytes(b)).map_err(|m| format!("a receipt that cannot be read: {m}"))?;
                    match rec {
                        Ok(Receipt::Deploy(d)) if what == 0 && d.success && exact => s.template = d.addr,
                        Ok(Receipt::Spawn(d)) if what == 1 && d.success && exact => s.spawned = d.account_addr,
                        Ok(_) => {}
                        Err(e) => return Err(format!("a receipt that cannot be read: {e:?}")),
                    }
                } else {
                    check!(res.is_err(), "neither a receipt nor an error");
                }
                res
            }
            11 => {
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| if t.has_uncommitted_changes().map_err(|e| e.to_string())? { Err("changes".to_string()) } else { Ok(()) })));
                }
                call("svm_uncommitted_changes", || unsafe { svm_uncommitted_changes(h) })?
            }
            12 | 13 => {
                let (mut hash, mut layer) = ([0u8; 32], 0u64);
                let res = call("svm_layer_info", || unsafe { svm_layer_info(h, hash.as_mut_ptr(), &mut layer) })?;
                if let Some(t) = &mut twin {
                    let now = panics(|| t.current_layer());
                    if let (Ok((l, x)), true) = (&now, res.is_ok()) {
                        check!(layer == l.0 && hash == x.0, "svm_layer_info gives layer {layer} and hash {hash:?}; the runtime has {} and {:?}", l.0, x.0);
                    }
                    want = Some(Want::of(now.map(|_| Ok(()))));
                }
                res
            }
            14 => {
                let l = r.below(3);
                s.accounts.clear();
                s.template = None;
                s.spawned = None;
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| t.rewind(Layer(l)).map_err(|e| e.to_string()))));
                }
                call(&format!("svm_rewind {l}"), || unsafe { svm_rewind(h, l) })?
            }
            15 => {
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| t.commit().map_err(|e| e.to_string()))));
                }
                call("svm_commit", || unsafe { svm_commit(h) })?
            }
            16 => {
                let (b, hi, lo) = (r.edge(), r.edge(), r.edge());
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| t.create_genesis_account(&a, "", b, (hi as u128) << 64 | lo as u128).map_err(|e| e.to_string()))));
                }
                let res = call(&format!("svm_create_genesis_account {b} {hi} {lo}"), || unsafe { svm_create_genesis_account(h, addr.as_ptr(), b, hi, lo) })?;
                if let Some(i) = at {
                    s.accounts.retain(|x| !(x.0 == i && x.1 == a));
                    if res.is_ok() {
                        s.accounts.push((i, a, b, (hi as u128) << 64 | lo as u128));
                    }
                }
                res
            }
            17 => {
                let null = r.chance(1, 4);
                let mut acc = svm_account::default();
                let out: *mut svm_account = if null { std::ptr::null_mut() } else { &mut acc };
                let res = call(&format!("svm_get_account{}", if null { " into null" } else { "" }), || unsafe { svm_get_account(h, addr.as_ptr(), out) })?;
                if null {
                    due = Some(true);
                } else if let Some(t) = &mut twin {
                    let now = panics(|| t.get_account(&a));
                    if let (Ok(Some(x)), true) = (&now, res.is_ok()) {
                        check!(acc.balance == x.0 && acc.counter() == x.1 && acc.template_addr == x.2.as_slice(), "svm_get_account gives {acc:?}; the runtime has {x:?}");
                    }
                    want = Some(match now {
                        Ok(Some(_)) => Want::Success,
                        _ => Want::Failure,
                    });
                }
                if let (false, Some(i)) = (null, at) {
                    if let Some(x) = s.accounts.iter().find(|x| x.0 == i && x.1 == a) {
                        due = Some(false);
                        check!(res.is_err() || acc.balance == x.2 && acc.counter() == x.3, "svm_get_account gives balance {} counter {}, expected {} {}", acc.balance, acc.counter(), x.2, x.3);
                    }
                }
                res
            }
            18 => {
                let d = r.edge();
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| t.increase_balance(&a, d).map_err(|e| e.to_string()))));
                }
                let res = call(&format!("svm_increase_balance {d}"), || unsafe { svm_increase_balance(h, addr.as_ptr(), d) })?;
                if let Some(i) = at {
                    s.accounts.retain(|x| !(x.0 == i && x.1 == a));
                }
                res
            }
            _ => {
                let b = *r.pick(&s.addrs);
                let d = r.edge();
                if let Some(t) = &mut twin {
                    want = Some(Want::of(panics(|| Ok(t.transfer(&a, &b, d)))));
                }
                let res = call(&format!("svm_transfer {d}"), || unsafe { svm_transfer(h, addr.as_ptr(), b.as_slice().as_ptr(), d) })?;
                if let Some(i) = at {
                    s.accounts.retain(|x| !(x.0 == i && (x.1 == a || x.1 == b)));
                }
                res
            }
        };
        let seen = look(&res)?;
        trace(format!("  -> {}", match seen.kind { -1 => "ok".into(), 0 => "receipt".into(), _ => String::from_utf8_lossy(&seen.bytes).into_owned() }));
        if let Some(d) = due {
            check!((seen.kind == 1) == d, "{} was due", if d { "an error" } else { "a success" });
        }
        match want {
            Some(Want::Failure) => check!(seen.kind == 1, "the runtime's operation fails, the exported function does not say so"),
            Some(Want::Success) => check!(seen.kind == -1, "the runtime's operation succeeds, the exported function does not say so"),
            Some(Want::Receipt(b)) => {
                check!(seen.kind == 0 && seen.bytes == b, "the receipt is {:?}, the runtime's operation gives {:?}", Receipt::decode_bytes(&seen.bytes[..]), Receipt::decode_bytes(&b[..]));
            }
            None => {}
        }
        dispose(r, res, &seen)?;
    }
    Ok(checks)
}

fn main() {
    vcommon::main(&[Prop { id: "C19", case: c19, quick: 2000, thorough: 40000 }])
}
