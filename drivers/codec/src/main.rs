//! Concrete driver for the binary formats and layouts: C13, C14 and C15.
use std::collections::HashSet;
use std::io::Cursor;

use svm_codec::{template, Codec, ParseError, SectionPreview, SectionsDecoder, SectionsEncoder};
use svm_layout::{FixedLayout, Layout, RawVar};
use svm_types::*;
use vcommon::{check, panics, trace, Prop, Rng};

/// The most address space this process ever had, in bytes.
fn vm_peak() -> usize {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let kb = s.lines().find_map(|l| l.strip_prefix("VmPeak:")).and_then(|l| l.trim().split(' ').next()?.parse::<usize>().ok());
    kb.unwrap_or(0) * 1024
}

// ------------------------------------------------------------------ generators

fn addr(r: &mut Rng) -> Address {
    Address::new(r.bytes(20))
}
fn taddr(r: &mut Rng) -> TemplateAddr {
    TemplateAddr::new(r.bytes(20))
}
fn state(r: &mut Rng) -> State {
    State::new(r.bytes(32))
}
fn txid(r: &mut Rng) -> TransactionId {
    TransactionId::new(r.bytes(32))
}
fn u128_(r: &mut Rng) -> u128 {
    let (a, b) = (r.edge(), r.edge());
    (a as u128) << 64 | b as u128
}
/// Text of at most `max` bytes, often exactly at a limit.
fn text(r: &mut Rng, max: usize) -> String {
    let mut s = match r.below(5) {
        0 => String::new(),
        1 => "x".repeat(max),
        2 => "é".repeat(max / 2),
        _ => {
            let m = r.usize(max + 1);
            r.text(m)
        }
    };
    while s.len() > max {
        s.pop();
    }
    s
}
fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => max,
        2 => r.usize(max + 1),
        _ => r.usize(max.min(40) + 1),
    };
    r.bytes(n)
}
/// Zero stands for "no amount of gas", so it isn't generated.
fn gas(r: &mut Rng) -> Gas {
    match r.edge() {
        0 => Gas::new(),
        x => Gas::with(x),
    }
}
fn logs(r: &mut Rng) -> Vec<ReceiptLog> {
    let n = match r.below(12) {
        0 => 255,
        1 => r.below(255),
        _ => r.below(4),
    };
    (0..n)
        .map(|_| {
            let m = if r.chance(1, 60) { 65535 } else { 30 };
            ReceiptLog::new(blob(r, m))
        })
        .collect()
}
fn error(r: &mut Rng, k: u64) -> RuntimeError {
    let (target, template) = (addr(r), taddr(r));
    let (func, msg) = (text(r, 255), text(r, 255));
    match k % 10 {
        0 => RuntimeError::OOG,
        1 => RuntimeError::TemplateNotFound(template),
        2 => RuntimeError::AccountNotFound(target),
        3 => RuntimeError::CompilationFailed { target, template, msg },
        4 => RuntimeError::InstantiationFailed { target, template, msg },
        5 => RuntimeError::FuncNotFound { target, template, func },
        6 => RuntimeError::FuncFailed { target, template, func, msg },
        7 => RuntimeError::FuncNotCtor { template, func },
        8 => RuntimeError::FuncNotAllowed { target, template, func, msg },
        _ => RuntimeError::FuncInvalidSignature { target, template, func },
    }
}
fn touched(r: &mut Rng) -> HashSet<Address> {
    let n = if r.chance(1, 30) { r.below(700) } else { r.below(5) };
    (0..n).map(|_| addr(r)).collect()
}
fn returndata(r: &mut Rng) -> Vec<u8> {
    let m = if r.chance(1, 12) { 65535 } else { 50 };
    blob(r, m)
}
fn call_receipt(r: &mut Rng, k: u64) -> CallReceipt {
    if k % 11 == 10 {
        CallReceipt {
            version: 0,
            success: true,
            error: None,
            new_state: Some(state(r)),
            returndata: Some(returndata(r)),
            gas_used: gas(r),
            touched_accounts: touched(r),
            logs: logs(r),
        }
    } else {
        CallReceipt::from_err(error(r, k % 11), logs(r))
    }
}
fn spawn_receipt(r: &mut Rng, k: u64) -> SpawnReceipt {
    if k % 11 == 10 {
        SpawnReceipt {
            version: 0,
            success: true,
            error: None,
            account_addr: Some(addr(r)),
            init_state: Some(state(r)),
            returndata: Some(returndata(r)),
            gas_used: gas(r),
            touched_accounts: touched(r),
            logs: logs(r),
        }
    } else {
        SpawnReceipt::from_err(error(r, k % 11), logs(r))
    }
}
fn deploy_receipt(r: &mut Rng, k: u64) -> DeployReceipt {
    if k % 11 == 10 {
        let mut d = DeployReceipt::new(taddr(r), gas(r));
        d.logs = logs(r);
        d
    } else {
        DeployReceipt::from_err(error(r, k % 11), logs(r))
    }
}
fn envelope(r: &mut Rng) -> Envelope {
    Envelope::new(addr(r), r.edge(), u128_(r), gas(r), r.edge())
}
fn context(r: &mut Rng) -> Context {
    Context::new(txid(r), Layer(r.edge()), state(r))
}
fn transaction(r: &mut Rng) -> Transaction {
    Transaction {
        version: r.edge() as u16,
        target: addr(r),
        func_name: text(r, 255),
        verifydata: blob(r, 255),
        calldata: blob(r, 255),
    }
}
fn spawn(r: &mut Rng) -> SpawnAccount {
    SpawnAccount {
        version: r.edge() as u16,
        account: Account { name: text(r, 255), template_addr: taddr(r) },
        ctor_name: text(r, 255),
        calldata: blob(r, 255),
    }
}
fn layout(r: &mut Rng) -> FixedLayout {
    let n = match r.below(8) {
        0 => 300 + r.below(400),
        _ => r.below(8) + 1,
    };
    let sizes: Vec<u32> = (0..n).map(|_| if r.chance(1, 6) { 65535 } else { r.below(100) as u32 }).collect();
    let first = match r.below(3) {
        0 => 0,
        1 => u32::MAX - n as u32 + 1,
        _ => r.edge_u32().min(u32::MAX - n as u32 + 1),
    };
    FixedLayout::from_byte_sizes(first, &sizes)
}
fn data(r: &mut Rng) -> DataSection {
    let n = r.below(4);
    let mut d = DataSection::with_capacity(n as usize);
    for _ in 0..n {
        d.add_layout(Layout::Fixed(layout(r)));
    }
    d
}
fn code(r: &mut Rng) -> CodeSection {
    let m = if r.chance(1, 10) { 70_000 } else { 100 };
    CodeSection::new(CodeKind::Wasm, blob(r, m), r.edge(), GasMode::Fixed, r.edge_u32())
}
fn ctors(r: &mut Rng) -> CtorsSection {
    let n = if r.chance(1, 10) { 254 } else { r.below(5) };
    CtorsSection::new((0..n).map(|_| text(r, 40)).collect())
}
fn header(r: &mut Rng) -> HeaderSection {
    HeaderSection::new(r.edge_u32(), text(r, 255), text(r, 255))
}
fn deploy_section(r: &mut Rng) -> DeploySection {
    DeploySection::new(txid(r), Layer(r.edge()), addr(r), taddr(r))
}
fn template_(r: &mut Rng) -> Template {
    let mut t = Template::new(code(r), data(r), ctors(r));
    if r.chance(1, 2) {
        t = t.with_header(Some(header(r)));
    }
    if r.chance(1, 2) {
        t = t.with_deploy(Some(deploy_section(r)));
    }
    t
}

// ------------------------------------------------------------------ C13

fn round<T: Codec<Error = ParseError> + std::fmt::Debug + PartialEq>(t: &T, size: Option<usize>, r: &mut Rng) -> Result<u64, String> {
    trace(format!("{t:?}").chars().take(3000).collect::<String>());
    let bytes = panics(|| t.encode_to_vec()).map_err(|e| format!("encoding panics: {e}"))?;
    if let Some(s) = size {
        check!(bytes.len() == s, "the encoding has {} bytes instead of {s}", bytes.len());
    }
    if let Some(s) = T::fixed_size() {
        check!(bytes.len() == s, "the encoding has {} bytes instead of the announced {s}", bytes.len());
    }
    let back = panics(|| T::decode_bytes(&bytes)).map_err(|e| format!("decoding an encoding panics: {e}"))?;
    check!(back.is_ok(), "an encoding isn't decoded");
    let back = back.unwrap();
    check!(back == *t, "decoded differently: {back:?}");
    let twice = panics(|| back.encode_to_vec()).map_err(|e| format!("encoding what was decoded panics: {e}"))?;
    check!(twice == bytes, "equal values have different encodings");
    // something behind it stays unread
    let tail = r.usize(9) + 1;
    let mut more = bytes.clone();
    more.extend(r.bytes(tail));
    let mut c = Cursor::new(&more[..]);
    let again = panics(|| T::decode(&mut c)).map_err(|e| format!("decoding in a stream panics: {e}"))?;
    check!(again.is_ok() && again.unwrap() == *t, "decoded differently in a stream");
    check!(c.position() as usize == bytes.len(), "decoding reads {} bytes of {}", c.position(), bytes.len());
    // appending to what is there already
    let mut w = vec![7u8; 3];
    t.encode(&mut w);
    check!(w.len() == 3 + bytes.len() && w[..3] == [7, 7, 7], "encoding disturbs what was written before");
    Ok(5)
}

fn be(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

fn c13(i: u64, r: &mut Rng) -> Result<u64, String> {
    let k = i / 16;
    match i % 16 {
        0 => {
            let e = envelope(r);
            let want = be(&[
                e.principal().as_slice(),
                &e.amount().to_be_bytes(),
                &e.nonce().to_be_bytes(),
                &e.gas_limit().unwrap_or(0).to_be_bytes(),
                &e.gas_fee().to_be_bytes(),
            ]);
            trace(format!("{e:?}"));
            check!(e.encode_to_vec() == want, "the envelope isn't in its documented form");
            round(&e, Some(60), r)
        }
        1 => {
            let c = context(r);
            let want = be(&[c.tx_id().as_slice(), &c.layer().0.to_be_bytes(), c.state().as_slice()]);
            trace(format!("{c:?}"));
            check!(c.encode_to_vec() == want, "the context isn't in its documented form");
            round(&c, Some(72), r)
        }
        2 | 3 => round(&transaction(r), None, r),
        4 | 5 => round(&spawn(r), None, r),
        6 => round(&call_receipt(r, k), None, r),
        7 => round(&spawn_receipt(r, k), None, r),
        8 => round(&deploy_receipt(r, k), None, r),
        9 => {
            let x = match k % 3 {
                0 => Receipt::Call(call_receipt(r, k / 3)),
                1 => Receipt::Spawn(spawn_receipt(r, k / 3)),
                _ => Receipt::Deploy(deploy_receipt(r, k / 3)),
            };
            round(&x, None, r)
        }
        10 => {
            // messages longer than the format allows are cut, the rest of the receipt is kept
            let n = r.range(256, 600) as usize;
            let mut msg = text(r, 255);
            while msg.len() < n {
                msg.push(*r.pick(&['a', 'é', '漢']));
            }
            trace(format!("message {msg:?}"));
            let (a, t, l) = (addr(r), taddr(r), logs(r));
            let err = RuntimeError::CompilationFailed { target: a.clone(), template: t.clone(), msg: msg.clone() };
            let rec = CallReceipt::from_err(err, l.clone());
            let bytes = panics(|| rec.encode_to_vec()).map_err(|e| format!("a long error message can't be encoded: {e}"))?;
            let back = CallReceipt::decode_bytes(&bytes).map_err(|_| "not decoded".to_string())?;
            check!(back.logs == l, "the logs of an error receipt are lost");
            match back.error() {
                RuntimeError::CompilationFailed { target, template, msg: m } => {
                    check!(*target == a && *template == t, "addresses of an error receipt are lost");
                    check!(msg.starts_with(m.as_str()) && m.len() > 251, "the message of an error receipt is lost");
                }
                e => return Err(format!("another error comes back: {e:?}")),
            }
            Ok(3)
        }
        11 => {
            let t = template_(r);
            trace(format!("{t:?}").chars().take(3000).collect::<String>());
            let bytes = panics(|| template::encode(&t)).map_err(|e| format!("encoding a template panics: {e}"))?;
            let mut more = bytes.clone();
            more.extend(r.bytes(3));
            let mut c = Cursor::new(&more[..]);
            let back = panics(|| template::decode(&mut c, None)).map_err(|e| format!("decoding a template panics: {e}"))?;
            check!(back.is_ok(), "an encoded template isn't decoded");
            check!(back.unwrap() == t, "a template is decoded differently");
            check!(c.position() as usize == bytes.len(), "decoding a template reads {} bytes of {}", c.position(), bytes.len());
            // reading only some sections gives the same sections
            let mut want: HashSet<SectionKind> = [SectionKind::Code, SectionKind::Data, SectionKind::Ctors].into();
            if r.chance(1, 2) {
                want.insert(SectionKind::Header);
            }
            let mut c = Cursor::new(&bytes[..]);
            let some = template::decode(&mut c, Some(want.clone())).map_err(|_| "selected sections aren't decoded".to_string())?;
            for kind in [SectionKind::Code, SectionKind::Data, SectionKind::Ctors, SectionKind::Header, SectionKind::Deploy] {
                let expect = if want.contains(&kind) { t.try_get(kind) } else { None };
                check!(some.try_get(kind) == expect, "section {kind} differs when only some are read");
            }
            check!(c.position() as usize == bytes.len(), "skipping sections loses the place");
            Ok(8)
        }
        12 => {
            let mut s = Sections::with_capacity(3);
            let mut kinds = vec![];
            let mut add = |x: Section| {
                kinds.push((x.kind(), x.clone()));
                s.insert(x)
            };
            for k in 0..5 {
                if r.chance(1, 2) {
                    add(match k {
                        0 => code(r).into(),
                        1 => data(r).into(),
                        2 => ctors(r).into(),
                        3 => header(r).into(),
                        _ => deploy_section(r).into(),
                    })
                }
            }
            let mut e = SectionsEncoder::with_capacity(5);
            e.encode(&s);
            let bytes = e.finish();
            let mut c = Cursor::new(&bytes[..]);
            let mut d = SectionsDecoder::new(&mut c).map_err(|_| "sections not decoded".to_string())?;
            check!(d.section_count() == kinds.len(), "wrong number of sections");
            for (kind, sec) in &kinds {
                let p = d.next_preview().map_err(|_| "preview not decoded".to_string())?;
                check!(p.kind() == *kind, "wrong kind in preview");
                if r.chance(1, 3) {
                    d.skip_section().map_err(|_| "section not skipped".to_string())?;
                } else {
                    let back = d.decode_section().map_err(|_| "section not decoded".to_string())?;
                    check!(back == *sec, "section decoded differently: {back:?}");
                }
            }
            check!(d.is_eof(), "sections left over");
            Ok(kinds.len() as u64)
        }
        13 => {
            let kinds = [SectionKind::Api, SectionKind::Code, SectionKind::Ctors, SectionKind::Data, SectionKind::Deploy, SectionKind::Header, SectionKind::Schema];
            let k = *r.pick(&kinds);
            round(&k, None, r)?;
            let p = SectionPreview::new(k, r.edge_u32());
            let b = p.encode_to_vec();
            check!(SectionPreview::decode_bytes(&b) == Ok(p), "a section's preview is decoded differently");
            Ok(2)
        }
        14 => {
            round(&data(r), None, r)?;
            round(&code(r), None, r)?;
            round(&ctors(r), None, r)?;
            round(&header(r), None, r)?;
            round(&deploy_section(r), None, r)
        }
        _ => {
            round(&(r.edge() as u8), None, r)?;
            round(&(r.edge() as u16), Some(2), r)?;
            round(&r.edge_u32(), Some(4), r)?;
            round(&r.edge(), Some(8), r)?;
            round(&u128_(r), Some(16), r)?;
            round(&r.chance(1, 2), None, r)?;
            round(&text(r, 255), None, r)?;
            round(&addr(r), Some(20), r)?;
            round(&taddr(r), Some(20), r)?;
            round(&state(r), Some(32), r)?;
            round(&txid(r), Some(32), r)?;
            round(&gas(r), Some(8), r)?;
            let v: Vec<u64> = (0..r.below(300)).map(|_| r.edge()).collect();
            round(&v, None, r)
        }
    }
}

// ------------------------------------------------------------------ C14

fn take<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    panics(f).map_err(|e| format!("{what}: decoding panics: {e}"))
}

thread_local! { static HUNGRY: std::cell::RefCell<HashSet<Vec<u8>>> = Default::default(); }

fn decode_all(b: &[u8]) -> Result<u64, String> {
    macro_rules! all { ($($t:ty),*) => {{ $( take(stringify!($t), || <$t>::decode_bytes(b).is_ok())?; )* }} }
    all!(Envelope, Context, Transaction, SpawnAccount, CallReceipt, SpawnReceipt, DeployReceipt, Receipt, RuntimeFailure,
         CodeSection, DataSection, CtorsSection, HeaderSection, DeploySection, SchemaSection, ApiSection, SectionKind,
         SectionPreview, Layout, String, Gas, u8, u16, u32, u64, u128, bool, Address, State, TemplateAddr, TransactionId,
         Vec<u16>, Vec<String>, Vec<ReceiptLog>, HashSet<Address>);
    take("Template", || template::decode(&mut Cursor::new(b), None).is_ok())?;
    take("Template", || {
        template::decode(&mut Cursor::new(b), Some([SectionKind::Code, SectionKind::Data, SectionKind::Ctors].into())).is_ok()
    })?;
    take("Template", || template::decode(&mut Cursor::new(b), Some([SectionKind::Header].into())).is_ok())?;
    Ok(38)
}

/// An encoding of something.
fn some_encoding(r: &mut Rng, k: u64) -> Vec<u8> {
    match k % 11 {
        0 => envelope(r).encode_to_vec(),
        1 => context(r).encode_to_vec(),
        2 => transaction(r).encode_to_vec(),
        3 => spawn(r).encode_to_vec(),
        4 => call_receipt(r, k / 11).encode_to_vec(),
        5 => spawn_receipt(r, k / 11).encode_to_vec(),
        6 => deploy_receipt(r, k / 11).encode_to_vec(),
        7 => data(r).encode_to_vec(),
        8 => ctors(r).encode_to_vec(),
        9 => header(r).encode_to_vec(),
        _ => template::encode(&template_(r)),
    }
}

fn c14(i: u64, r: &mut Rng) -> Result<u64, String> {
    let mut b = match i % 4 {
        0 => {
            let n = r.usize(80);
            let small = r.chance(1, 2);
            (0..n).map(|_| if small && r.chance(3, 4) { r.below(12) as u8 } else { r.u64() as u8 }).collect()
        }
        _ => some_encoding(r, i / 4),
    };
    if b.len() > 4000 {
        b.truncate(4000);
    }
    match i % 3 {
        0 if !b.is_empty() => {
            let k = r.usize(b.len());
            b.truncate(k)
        }
        1 if !b.is_empty() => {
            for _ in 0..r.range(1, 4) {
                let near = r.chance(1, 2);
                let k = if near { r.usize(b.len().min(24)) } else { r.usize(b.len()) };
                b[k] = match r.below(4) {
                    0 => 0xff,
                    1 => 0,
                    2 => b[k] ^ (1 << r.below(8)),
                    _ => r.u64() as u8,
                };
            }
            if r.chance(1, 3) {
                let (k, n) = (r.usize(b.len() + 1), r.usize(5));
                let x = r.bytes(n);
                b.splice(k..k, x);
            }
        }
        _ => {}
    }
    trace(format!("bytes: {b:02x?}"));
    // the allocator keeps what it got, so a case is only caught the first time; remember it
    let hungry = || "decoding a few bytes needs more than 256 MB of memory".to_string();
    if HUNGRY.with(|h| h.borrow().contains(&b)) {
        return Err(hungry());
    }
    let before = vm_peak();
    let n = decode_all(&b)?;
    if vm_peak() > before + (256 << 20) {
        HUNGRY.with(|h| h.borrow_mut().insert(b));
        return Err(hungry());
    }
    Ok(n + 1)
}

fn prefix<T: Codec<Error = ParseError> + PartialEq>(t: &T, r: &mut Rng) -> Result<u64, String> {
    let b = t.encode_to_vec();
    let mut cuts: Vec<usize> = (0..b.len().min(300)).collect();
    for _ in 0..20 {
        if b.len() > 300 {
            cuts.push(r.usize(b.len()));
        }
    }
    if !b.is_empty() {
        cuts.push(b.len() - 1);
    }
    for n in &cuts {
        let d = panics(|| T::decode_bytes(&b[..*n])).map_err(|e| format!("decoding {n} of {} bytes panics: {e}", b.len()))?;
        check!(d.map(|x| x != *t).unwrap_or(true), "{n} of {} bytes are taken for the complete value", b.len());
    }
    Ok(cuts.len() as u64)
}

fn c14_prefix(i: u64, r: &mut Rng) -> Result<u64, String> {
    trace(format!("prefixes, kind {}", i % 12));
    match i % 12 {
        0 => prefix(&envelope(r), r),
        1 => prefix(&context(r), r),
        2 => prefix(&transaction(r), r),
        3 => prefix(&spawn(r), r),
        4 => prefix(&call_receipt(r, i / 12), r),
        5 => prefix(&spawn_receipt(r, i / 12), r),
        6 => prefix(&deploy_receipt(r, i / 12), r),
        7 => prefix(&data(r), r),
        8 => prefix(&ctors(r), r),
        9 => prefix(&header(r), r),
        10 => prefix(&code(r), r),
        _ => {
            let t = template_(r);
            let b = template::encode(&t);
            for _ in 0..60 {
                let n = r.usize(b.len());
                let d = panics(|| template::decode(&mut Cursor::new(&b[..n]), None)).map_err(|e| format!("decoding {n} of {} bytes panics: {e}", b.len()))?;
                check!(d.map(|x| x != t).unwrap_or(true), "{n} of {} bytes are taken for the complete template", b.len());
            }
            Ok(60)
        }
    }
}

// ------------------------------------------------------------------ C15

fn c15(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let n = match r.below(10) {
        0 => 0,
        1 => r.below(600),
        _ => r.range(1, 12),
    };
    // offsets are 32 bits, so the sizes sum up to less
    let mut left = u32::MAX as u64;
    let sizes: Vec<u32> = (0..n)
        .map(|_| {
            let s = match r.below(4) {
                0 => r.below(3),
                1 => r.below(300),
                2 => r.edge_u32() as u64,
                _ => 32 * r.below(4),
            };
            let s = s.min(left);
            left -= s;
            s as u32
        })
        .collect();
    let top = u32::MAX - (n.max(1) as u32 - 1);
    let first = match r.below(4) {
        0 => 0,
        1 => top,
        _ => r.edge_u32().min(top),
    };
    trace(format!("first {first}, sizes {sizes:?}"));
    // the last variable may end at the very end of the offsets; the end itself then isn't representable
    let total: u64 = sizes.iter().map(|x| *x as u64).sum();
    check!(total <= u32::MAX as u64, "driver");
    let l = panics(|| FixedLayout::from_byte_sizes(first, &sizes)).map_err(|e| format!("building a layout panics: {e}"))?;
    check!(l.len() == n as usize && l.is_empty() == (n == 0), "the layout has {} variables instead of {n}", l.len());
    let vars: Vec<RawVar> = l.iter().collect();
    let mut off = 0u64;
    for (k, v) in vars.iter().enumerate() {
        let want = RawVar::new(first + k as u32, off as u32, sizes[k]);
        check!(*v == want, "variable {k} is {v:?} instead of {want:?}");
        off += sizes[k] as u64;
        let got = panics(|| *l.get(v.id)).map_err(|e| format!("looking up {} panics: {e}", v.id))?;
        check!(got == want, "looking up {} gives {got:?} instead of {want:?}", v.id);
        let got = panics(|| l.try_get(v.id).copied()).map_err(|e| format!("looking up {} panics: {e}", v.id))?;
        check!(got == Some(want), "looking up {} gives {got:?} instead of {want:?}", v.id);
    }
    if n > 0 {
        check!(l.first() == first && l.try_first() == Some(first), "the first id is wrong");
        // the same variables given one by one
        let same = FixedLayout::new(vars.clone());
        check!(same == l, "a layout built from its variables differs");
    }
    for _ in 0..6 {
        let id = match r.below(4) {
            0 => first.wrapping_add(n as u32),
            1 => first.wrapping_sub(1),
            2 => first.wrapping_add(n as u32).wrapping_add(r.below(5) as u32),
            _ => r.edge_u32(),
        };
        if (id as u64) >= first as u64 && (id as u64) < first as u64 + n {
            continue;
        }
        let got = panics(|| l.try_get(id).copied()).ok().flatten();
        check!(got.is_none(), "id {id} isn't in the layout, yet it is found: {got:?}");
        check!(panics(|| *l.get(id)).is_err(), "id {id} isn't in the layout, yet it is found");
    }
    Ok(n + 6)
}

fn main() {
    vcommon::main(&[
        Prop { id: "C13", case: c13, quick: 40_000, thorough: 4_000_000 },
        Prop { id: "C14", case: c14, quick: 60_000, thorough: 8_000_000 },
        Prop { id: "C14", case: c14_prefix, quick: 6_000, thorough: 400_000 },
        Prop { id: "C15", case: c15, quick: 200_000, thorough: 8_000_000 },
    ])
}
