//! Concrete driver for the global state: C01 to C05.
use std::collections::BTreeMap;

use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::{
    Address, BytesPrimitive, CodeKind, CodeSection, CtorsSection, DataSection, GasMode,
    HeaderSection, Layer, Section, SectionKind, Sections, State, TemplateAddr,
};
use vcommon::{check, panics, trace, Prop, Rng, Scratch};

/// What is stored, at the level of the public API.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum K {
    /// A template's code and constructors.
    Tpl(u8),
    /// Name and template of an account.
    Data(u8),
    /// Balance and counter of an account.
    Mut(u8),
    Var(u8, u32),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V {
    Tpl(Vec<u8>, Vec<String>, String),
    Data(String, u8),
    Mut(u64, u128),
    Bytes(Vec<u8>),
}
type Contents = BTreeMap<K, V>;

const ACCOUNTS: u8 = 4;
const TEMPLATES: u8 = 2;

fn addr(a: u8) -> Address {
    // Addresses sharing all but one byte.
    let mut b = [7u8; 20];
    b[if a % 2 == 0 { 0 } else { 19 }] = a;
    Address::new(b)
}
fn taddr(t: u8) -> TemplateAddr {
    let mut b = [9u8; 20];
    b[19] = t;
    TemplateAddr::new(b)
}

struct World {
    rt: tokio::runtime::Runtime,
    gs: Option<GlobalState>,
    uri: String,
    layouts: Vec<Vec<u32>>,
    firsts: Vec<u32>,
    // the model
    layers: Vec<(Contents, Option<State>)>, // index 0 is layer -1
    saved: Contents,
    dirty: Contents,
    checks: u64,
}

impl World {
    fn open(uri: String, layouts: Vec<Vec<u32>>, firsts: Vec<u32>) -> World {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let gs = rt.block_on(GlobalState::new(&uri, GenesisConfig::mainnet()));
        World {
            rt,
            gs: Some(gs),
            uri,
            layouts,
            firsts,
            layers: vec![(Contents::new(), None)],
            saved: Contents::new(),
            dirty: Contents::new(),
            checks: 0,
        }
    }
    fn gs(&self) -> GlobalState {
        self.gs.clone().unwrap()
    }
    fn close(&mut self) {
        self.gs = None;
    }
    fn reopen(&mut self) {
        self.close();
        trace("reopen");
        let gs = self.rt.block_on(GlobalState::new(&self.uri, GenesisConfig::mainnet()));
        self.gs = Some(gs);
        self.saved.clear();
        self.dirty.clear();
    }
    fn last(&self) -> i64 {
        self.layers.len() as i64 - 2
    }
    fn now(&self) -> Contents {
        let mut c = self.layers.last().unwrap().0.clone();
        c.extend(self.saved.clone());
        c.extend(self.dirty.clone());
        c
    }
    fn offset(&self, t: u8, var: u32) -> (u32, u32) {
        let l = &self.layouts[t as usize];
        let i = (var - self.firsts[t as usize]) as usize;
        (l[..i].iter().sum(), l[i])
    }
    /// Template of an account in the current view.
    fn tpl_of(&self, c: &Contents, a: u8) -> Option<u8> {
        match c.get(&K::Data(a)) {
            Some(V::Data(_, t)) => Some(*t),
            _ => None,
        }
    }

    /// Writes one entry through the public API. `vals` picks the values.
    fn put(&mut self, k: K, v: V) -> Result<(), String> {
        trace(format!("put {k:?} = {v:?}"));
        let gs = self.gs();
        match (&k, &v) {
            (K::Tpl(t), V::Tpl(code, ctors, name)) => {
                let layout = FixedLayout::from_byte_sizes(
                    self.firsts[*t as usize],
                    &self.layouts[*t as usize],
                );
                let mut core = Sections::with_capacity(3);
                core.insert(Section::Code(CodeSection::new(
                    CodeKind::Wasm,
                    code.clone(),
                    0,
                    GasMode::Fixed,
                    0,
                )));
                core.insert(Section::Data(DataSection::with_layout(Layout::Fixed(layout))));
                core.insert(Section::Ctors(CtorsSection::new(ctors.clone())));
                let mut non = Sections::with_capacity(1);
                non.insert(Section::Header(HeaderSection::new(1, name.clone(), "d".into())));
                self.rt
                    .block_on(TemplateStorage::create(gs, &taddr(*t), core, non))
                    .map_err(|e| format!("creating a template failed: {e:?}"))?;
            }
            (K::Data(a), V::Data(name, t)) => {
                let (b, c) = match self.now().get(&K::Mut(*a)) {
                    Some(V::Mut(b, c)) => (*b, *c),
                    _ => (0, 0),
                };
                self.rt
                    .block_on(AccountStorage::create(gs, &addr(*a), name.clone(), taddr(*t), b, c))
                    .map_err(|e| format!("creating an account failed: {e:?}"))?;
                self.dirty.insert(K::Mut(*a), V::Mut(b, c));
            }
            (K::Mut(a), V::Mut(b, c)) => {
                let mut acc = self.load(gs, *a)?;
                let old = match self.now().get(&K::Mut(*a)) {
                    Some(V::Mut(b, c)) => (*b, *c),
                    _ => unreachable!(),
                };
                // Only what differs is set, so that the other field must survive.
                if old.0 != *b || old.1 == *c {
                    self.rt.block_on(acc.set_balance(*b)).map_err(|e| format!("set_balance: {e:?}"))?;
                }
                if old.1 != *c {
                    self.rt.block_on(acc.set_counter(*c)).map_err(|e| format!("set_counter: {e:?}"))?;
                }
            }
            (K::Var(a, var), V::Bytes(x)) => {
                let mut acc = self.load(gs, *a)?;
                self.rt
                    .block_on(acc.set_var_bytes(*var, x))
                    .map_err(|e| format!("set_var_bytes: {e:?}"))?;
            }
            _ => unreachable!(),
        }
        self.dirty.insert(k, v);
        Ok(())
    }
    fn load(&self, gs: GlobalState, a: u8) -> Result<AccountStorage, String> {
        self.rt
            .block_on(AccountStorage::load(gs, &addr(a)))
            .map_err(|e| format!("account {a} cannot be loaded: {e:?}"))
    }

    /// Everything readable at `layer` (None: the latest) must be exactly `want`.
    fn verify(&mut self, layer: Option<i64>, want: &Contents) -> Result<(), String> {
        let mut gs = self.gs();
        *gs.layer_query_parameter_mut() = layer.map(|l| Layer(l as u64));
        for t in 0..TEMPLATES {
            let ts = TemplateStorage::load(gs.clone(), &taddr(t)).map_err(|e| format!("{e:?}"))?;
            let got = self.rt.block_on(ts.sections());
            match (want.get(&K::Tpl(t)), got) {
                (None, Err(StorageError::NotFound { .. })) => {}
                (Some(V::Tpl(code, ctors, name)), Ok(s)) => {
                    check!(s.get(SectionKind::Code).as_code().code() == &code[..], "layer {layer:?}: code of template {t} differs");
                    check!(s.get(SectionKind::Ctors).as_ctors().ctors() == &ctors[..], "layer {layer:?}: ctors of template {t} differ");
                    check!(s.get(SectionKind::Header).as_header().name() == name, "layer {layer:?}: name of template {t} differs");
                }
                (w, g) => return Err(format!("layer {layer:?}: template {t}: expected {w:?}, read {g:?}")),
            }
        }
        for a in 0..ACCOUNTS {
            self.checks += 1;
            let acc = self.rt.block_on(AccountStorage::load(gs.clone(), &addr(a)));
            let w = want.get(&K::Data(a));
            let acc = match (w, acc) {
                (None, Err(StorageError::NotFound { .. })) => continue,
                (Some(_), Ok(acc)) => acc,
                (w, g) => return Err(format!("layer {layer:?}: account {a}: expected {w:?}, read {:?}", g.map(|x| x.address))),
            };
            let (name, t) = match w {
                Some(V::Data(n, t)) => (n.clone(), *t),
                _ => unreachable!(),
            };
            let got = self.rt.block_on(async {
                Ok::<_, StorageError>((acc.name().await?, acc.template_addr().await?, acc.balance().await?, acc.counter().await?))
            });
            let got = got.map_err(|e| format!("layer {layer:?}: account {a}: {e:?}"))?;
            let (b, c) = match want.get(&K::Mut(a)) {
                Some(V::Mut(b, c)) => (*b, *c),
                _ => unreachable!(),
            };
            check!(got == (name.clone(), taddr(t), b, c), "layer {layer:?}: account {a}: expected {:?}, read {:?}", (&name, t, b, c), got);
            for i in 0..self.layouts[t as usize].len() {
                let var = self.firsts[t as usize] + i as u32;
                let size = self.layouts[t as usize][i] as usize;
                let w = match want.get(&K::Var(a, var)) {
                    Some(V::Bytes(b)) => b.clone(),
                    _ => vec![0; size],
                };
                let got = self.rt.block_on(acc.get_var_vec(var)).map_err(|e| format!("get_var: {e:?}"))?;
                check!(got == w, "layer {layer:?}: account {a}, variable {var}: expected {w:?}, read {got:?}");
            }
        }
        Ok(())
    }

    fn save(&mut self) -> Result<(), String> {
        trace("save");
        let mut gs = self.gs();
        self.rt.block_on(gs.checkpoint()).map_err(|e| format!("checkpoint: {e:?}"))?;
        let d = std::mem::take(&mut self.dirty);
        self.saved.extend(d);
        Ok(())
    }
    fn rollback(&mut self) -> Result<(), String> {
        trace("rollback");
        let mut gs = self.gs();
        self.rt.block_on(gs.rollback()).map_err(|e| format!("rollback: {e:?}"))?;
        self.dirty.clear();
        Ok(())
    }
    fn commit(&mut self) -> Result<(), String> {
        trace("commit");
        let mut gs = self.gs();
        let r = self.rt.block_on(gs.commit());
        if !self.dirty.is_empty() {
            check!(matches!(r, Err(StorageError::DirtyChanges)), "commit with unsaved writes: expected DirtyChanges, got {r:?}");
            return Ok(());
        }
        let (l, root) = r.map_err(|e| format!("commit: {e:?}"))?;
        check!(l.0 as i64 == self.last() + 1, "commit made layer {} instead of {}", l.0, self.last() + 1);
        let c = self.now();
        self.saved.clear();
        self.layers.push((c, Some(root)));
        Ok(())
    }
    fn rewind(&mut self, l: i64) -> Result<(), String> {
        trace(format!("rewind to {l}"));
        let mut gs = self.gs();
        let r = self.rt.block_on(gs.rewind(Layer(l as u64)));
        if !self.dirty.is_empty() {
            check!(matches!(r, Err(StorageError::DirtyChanges)), "rewind with unsaved writes: expected DirtyChanges, got {r:?}");
            return Ok(());
        }
        r.map_err(|e| format!("rewind: {e:?}"))?;
        self.saved.clear();
        self.layers.truncate(l as usize + 2);
        Ok(())
    }
    fn verify_current_layer(&mut self) -> Result<(), String> {
        if self.last() < 0 {
            return Ok(());
        }
        let mut gs = self.gs();
        let (l, root) = self.rt.block_on(gs.current_layer()).map_err(|e| format!("current_layer: {e:?}"))?;
        check!(l.0 as i64 == self.last(), "current layer is {} instead of {}", l.0, self.last());
        check!(Some(root) == self.layers.last().unwrap().1, "root of layer {} changed", l.0);
        self.checks += 1;
        Ok(())
    }
    fn verify_now(&mut self) -> Result<(), String> {
        let c = self.now();
        self.verify(None, &c)?;
        self.verify_current_layer()
    }
    fn verify_history(&mut self) -> Result<(), String> {
        for l in 0..=self.last() {
            let c = self.layers[l as usize + 1].0.clone();
            self.verify(Some(l), &c)?;
        }
        Ok(())
    }

    /// A random write that is possible in the current view.
    fn random_put(&mut self, r: &mut Rng) -> Result<(), String> {
        let (k, v) = self.random_entry(r);
        self.put(k, v)
    }
    fn random_entry(&mut self, r: &mut Rng) -> (K, V) {
        let now = self.now();
        let tpls: Vec<u8> = (0..TEMPLATES).filter(|t| now.contains_key(&K::Tpl(*t))).collect();
        let accs: Vec<u8> = (0..ACCOUNTS).filter(|a| now.contains_key(&K::Data(*a))).collect();
        loop {
            match r.below(10) {
                0 => {
                    let t = r.below(TEMPLATES as u64) as u8;
                    return (K::Tpl(t), self.random_value(r, &now, &K::Tpl(t)));
                }
                1 | 2 if !tpls.is_empty() => {
                    let a = r.below(ACCOUNTS as u64) as u8;
                    // An account keeps its template: variables of another layout would overlap.
                    let t = self.tpl_of(&now, a).unwrap_or(*r.pick(&tpls));
                    let names = ["", "x", "y", "a longer name"];
                    return (K::Data(a), V::Data(r.pick(&names).to_string(), t));
                }
                3..=6 if !accs.is_empty() => {
                    let k = K::Mut(*r.pick(&accs));
                    let v = self.random_value(r, &now, &k);
                    return (k, v);
                }
                7..=9 if !accs.is_empty() => {
                    let a = *r.pick(&accs);
                    let t = self.tpl_of(&now, a).unwrap();
                    let var = self.firsts[t as usize] + r.usize(self.layouts[t as usize].len()) as u32;
                    let k = K::Var(a, var);
                    let v = self.random_value(r, &now, &k);
                    return (k, v);
                }
                _ => {}
            }
        }
    }
    fn random_value(&self, r: &mut Rng, now: &Contents, k: &K) -> V {
        match k {
            K::Tpl(_) => {
                let n = *r.pick(&[0usize, 1, 2, 31, 33, 100, 3000]);
                let mut code = vec![r.below(2) as u8; n];
                if n > 0 && r.chance(1, 2) {
                    code[n - 1] ^= 0x80;
                }
                let ctors = (0..r.below(3)).map(|i| format!("c{i}")).collect();
                V::Tpl(code, ctors, r.pick(&["n", "m"]).to_string())
            }
            K::Data(a) => V::Data(r.pick(&["", "x", "y"]).to_string(), self.tpl_of(now, *a).unwrap_or(0)),
            K::Mut(_) => {
                let b = if r.chance(2, 3) { r.below(3) } else { r.edge() };
                let c = if r.chance(2, 3) { r.below(3) as u128 } else { ((r.edge() as u128) << 64) | r.edge() as u128 };
                V::Mut(b, c)
            }
            K::Var(a, var) => {
                let t = self.tpl_of(now, *a).unwrap();
                let (_, size) = self.offset(t, *var);
                let b = match r.below(4) {
                    0 => vec![0; size as usize],
                    1 => vec![0xff; size as usize],
                    2 => {
                        let mut v = vec![0; size as usize];
                        let n = v.len();
                        v[r.usize(n)] = 1;
                        v
                    }
                    _ => r.bytes(size as usize),
                };
                V::Bytes(b)
            }
        }
    }
}

/// Layouts whose variables are exactly the storage segments.
fn aligned() -> (Vec<Vec<u32>>, Vec<u32>) {
    (vec![vec![32, 32, 32], vec![32, 32]], vec![0, 3])
}

fn c01(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let s = Scratch::new();
    let (l, f) = aligned();
    let mut w = World::open(s.uri(), l, f);
    let n = r.range(10, 60);
    for _ in 0..n {
        match r.below(12) {
            0..=6 => w.random_put(r)?,
            7 | 8 => w.save()?,
            9 => w.rollback()?,
            _ => w.commit()?,
        }
        if r.chance(1, 3) {
            w.verify_now()?;
        }
    }
    w.verify_now()?;
    Ok(w.checks)
}

fn c02(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let s = Scratch::new();
    let (l, f) = aligned();
    let mut w = World::open(s.uri(), l, f);
    let n = r.range(10, 60);
    for _ in 0..n {
        match r.below(16) {
            0..=5 => w.random_put(r)?,
            6 | 7 => w.save()?,
            8 => w.rollback()?,
            9..=13 => {
                if r.chance(3, 4) {
                    w.save()?;
                }
                w.commit()?;
            }
            _ => {
                if w.last() >= 0 {
                    let to = r.below(w.last() as u64 + 1) as i64;
                    if r.chance(2, 3) {
                        w.rollback()?;
                    }
                    w.rewind(to)?;
                }
            }
        }
        if r.chance(1, 4) {
            w.verify_now()?;
            w.verify_history()?;
        }
    }
    w.verify_now()?;
    w.verify_history()?;
    // The layers that survived are those of a history that never rewound.
    if w.last() >= 0 && r.chance(1, 2) {
        trace("the same layers in a fresh state, without rewinds");
        let s2 = Scratch::new();
        let (l, f) = aligned();
        let mut d = World::open(s2.uri(), l, f);
        let want = w.layers.clone();
        for (c, root) in &want[1..] {
            reach(&mut d, c, r, false)?;
            w.checks += 1;
            check!(d.layers.last().unwrap().1 == *root, "layer {}: the root after rewinds is {root:?}, the root of the same layers built directly {:?}", d.last(), d.layers.last().unwrap().1);
        }
    }
    if r.chance(1, 3) && w.last() >= 0 {
        // A layer that was never committed is refused; nothing is lost on disk.
        w.rollback()?;
        let bad = w.last() + 1 + r.below(3) as i64;
        trace(format!("rewind to the future layer {bad}"));
        let mut gs = w.gs();
        let res = panics(|| w.rt.block_on(gs.rewind(Layer(bad as u64))));
        check!(!matches!(res, Ok(Ok(_))), "rewinding to layer {bad}, which does not exist, was accepted");
        drop(gs);
        w.reopen();
        w.verify_now()?;
        w.verify_history()?;
    }
    Ok(w.checks)
}

/// Brings the contents to `target` by a random route, then commits.
fn reach(w: &mut World, target: &Contents, r: &mut Rng, noisy: bool) -> Result<(), String> {
    if noisy {
        // Values that will not survive: rolled back, or overwritten before the commit.
        for _ in 0..r.below(4) {
            let now = w.now();
            let keys: Vec<K> = target.keys().filter(|k| now.contains_key(k)).cloned().collect();
            if keys.is_empty() {
                break;
            }
            let k = r.pick(&keys).clone();
            let v = w.random_value(r, &now, &k);
            w.put(k, v)?;
            match r.below(3) {
                0 => w.rollback()?,
                1 => w.save()?,
                _ => {}
            }
        }
        if w.last() >= 0 && r.chance(1, 3) {
            // A detour that is rewound (or forgotten by reopening) leaves no trace.
            let to = w.last();
            w.rollback()?;
            if r.chance(1, 2) {
                w.random_put(r)?;
                w.save()?;
                if r.chance(1, 2) {
                    w.commit()?;
                    w.random_put(r)?;
                    w.save()?;
                }
            }
            w.rewind(to)?;
            if r.chance(1, 3) {
                w.random_put(r)?;
                w.save()?;
                w.reopen();
            }
        }
        if r.chance(1, 3) {
            // Something that is not in the target must not survive.
            let (k, v) = w.random_entry(r);
            if !target.contains_key(&k) {
                w.save()?;
                w.put(k, v)?;
                w.rollback()?;
            }
        }
    }
    let mut todo: Vec<(K, V)> = target.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if noisy {
        // Any order respecting template < account < fields.
        for i in (1..todo.len()).rev() {
            todo.swap(i, r.usize(i + 1));
        }
        todo.sort_by_key(|(k, _)| match k {
            K::Tpl(_) => 0,
            K::Data(_) => 1,
            _ => 2,
        });
    }
    for (k, v) in todo {
        if w.now().get(&k) == Some(&v) && !(noisy && r.chance(1, 3)) {
            continue;
        }
        w.put(k, v)?;
        if noisy && r.chance(1, 4) {
            w.save()?;
        }
    }
    w.save()?;
    w.commit()?;
    check!(&w.layers.last().unwrap().0 == target, "driver: target not reached");
    Ok(())
}

fn c03(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let (l, f) = aligned();
    // (layer, contents, root) of every committed layer of every history
    let mut seen: Vec<(i64, Contents, State)> = vec![];
    // A sequence of growing contents.
    let n = r.range(1, 4);
    let mut seq = vec![];
    {
        let s = Scratch::new();
        let mut w = World::open(s.uri(), l.clone(), f.clone());
        for _ in 0..n {
            for _ in 0..r.range(1, 5) {
                w.random_put(r)?;
            }
            seq.push(w.now());
        }
    }
    let last = seq.last().unwrap().clone();
    for h in 0..3u64 {
        let s = Scratch::new();
        let mut w = World::open(s.uri(), l.clone(), f.clone());
        for i in 0..n as usize {
            // The last history reaches the final contents by other intermediate ones.
            let mut target = seq[i].clone();
            if h == 2 && i + 1 < n as usize {
                target = seq[r.usize(i + 1)].clone();
                let base = w.now();
                let mut t = base;
                t.extend(target.into_iter());
                target = t;
            }
            if i + 1 == n as usize {
                target = last.clone();
            }
            reach(&mut w, &target, r, h > 0)?;
            let e = w.layers.last().unwrap();
            seen.push((w.last(), e.0.clone(), e.1.unwrap()));
        }
        // Some neighbours of the final contents, two layers on each (same parity).
        for _ in 0..r.range(0, 2) {
            let mut c = w.now();
            let keys: Vec<K> = c.keys().cloned().collect();
            match r.below(3) {
                0 => {
                    // swap the values of two keys of a kind
                    let ms: Vec<K> = keys.iter().filter(|k| matches!(k, K::Mut(_))).cloned().collect();
                    if ms.len() >= 2 {
                        let (a, b) = (ms[0].clone(), ms[r.range(1, ms.len() as u64 - 1) as usize].clone());
                        let (x, y) = (c[&a].clone(), c[&b].clone());
                        c.insert(a, y);
                        c.insert(b, x);
                    }
                }
                1 => {
                    let k = r.pick(&keys).clone();
                    let v = w.random_value(r, &c, &k);
                    c.insert(k, v);
                }
                _ => {
                    let ms: Vec<K> = keys.iter().filter(|k| matches!(k, K::Mut(_))).cloned().collect();
                    let v = V::Mut(r.below(2), 0);
                    for m in ms {
                        c.insert(m, v.clone());
                    }
                }
            }
            reach(&mut w, &c, r, true)?;
            let e = w.layers.last().unwrap();
            seen.push((w.last(), e.0.clone(), e.1.unwrap()));
            if r.chance(1, 2) {
                reach(&mut w, &c, r, false)?;
                let e = w.layers.last().unwrap();
                seen.push((w.last(), e.0.clone(), e.1.unwrap()));
            }
        }
    }
    let mut checks = 0;
    for i in 0..seen.len() {
        for j in 0..i {
            let (a, b) = (&seen[i], &seen[j]);
            if (a.0 - b.0) % 2 != 0 {
                continue;
            }
            checks += 1;
            if a.1 == b.1 {
                check!(a.2 == b.2, "equal contents at layers {} and {} have different roots {:?} {:?}: {:?}", a.0, b.0, a.2, b.2, a.1);
            } else {
                let diff: Vec<_> = a.1.iter().filter(|(k, v)| b.1.get(k) != Some(v)).collect();
                let diff2: Vec<_> = b.1.iter().filter(|(k, v)| a.1.get(k) != Some(v)).collect();
                check!(a.2 != b.2, "different contents at layers {} and {} have the same root; they differ in {diff:?} vs {diff2:?}", a.0, b.0);
            }
        }
    }
    Ok(checks)
}

/// A statement of the database that is made to fail, as if the process died there.
fn fault_sql(kind: u64, k: u64) -> String {
    match kind {
        0 => r#"CREATE TRIGGER "vfault" BEFORE INSERT ON "layers" BEGIN SELECT RAISE(ABORT, 'vfault'); END"#.into(),
        1 => format!(r#"CREATE TRIGGER "vfault" BEFORE INSERT ON "values" WHEN (SELECT count(*) FROM "values" WHERE "layer_id" = NEW."layer_id") >= {k} BEGIN SELECT RAISE(ABORT, 'vfault'); END"#),
        2 => r#"CREATE TRIGGER "vfault" BEFORE UPDATE ON "layers" BEGIN SELECT RAISE(ABORT, 'vfault'); END"#.into(),
        3 => r#"CREATE TRIGGER "vfault" AFTER INSERT ON "layers" BEGIN SELECT RAISE(ABORT, 'vfault'); END"#.into(),
        4 => r#"CREATE TRIGGER "vfault" BEFORE DELETE ON "layers" BEGIN SELECT RAISE(ABORT, 'vfault'); END"#.into(),
        _ => r#"CREATE TRIGGER "vfault" BEFORE DELETE ON "values" BEGIN SELECT RAISE(ABORT, 'vfault'); END"#.into(),
    }
}
fn sql(w: &World, uri: &str, q: &str) -> Result<(), String> {
    w.rt.block_on(async {
        use sqlx::Connection;
        let mut c = sqlx::SqliteConnection::connect(uri).await.map_err(|e| e.to_string())?;
        sqlx::query(q).execute(&mut c).await.map_err(|e| e.to_string())?;
        c.close().await.map_err(|e| e.to_string())
    })
}

fn c04(_i: u64, r: &mut Rng) -> Result<u64, String> {
    let s = Scratch::new();
    let (l, f) = aligned();
    let mut w = World::open(s.uri(), l.clone(), f.clone());
    let uri = s.uri();
    if r.chance(1, 4) {
        // A crash while the very first (genesis) layer is written.
        trace("genesis interrupted");
        w.close();
        let (kind, k) = (*r.pick(&[1u64, 2, 1, 0, 3]), r.below(2));
        if sql(&w, &uri, r#"DELETE FROM "layers""#).is_ok() && sql(&w, &uri, r#"DELETE FROM "values""#).is_ok() && sql(&w, &uri, &fault_sql(kind, k)).is_ok() {
            let rt = &w.rt;
            let _ = panics(|| rt.block_on(GlobalState::new(&uri, GenesisConfig::mainnet())));
            sql(&w, &uri, r#"DROP TRIGGER IF EXISTS "vfault""#)?;
        }
        w.reopen();
    }
    let n = r.range(6, 30);
    for _ in 0..n {
        match r.below(16) {
            0..=6 => w.random_put(r)?,
            7 | 8 => w.save()?,
            9 => {
                w.save()?;
                w.commit()?
            }
            10 if w.last() >= 0 => {
                w.rollback()?;
                let to = r.below(w.last() as u64 + 1) as i64;
                w.rewind(to)?;
            }
            11 | 12 => {
                // Stop anywhere; unsaved and saved writes are gone.
                w.reopen();
                w.verify_now()?;
                w.verify_history()?;
            }
            13..=15 => {
                // Stop in the middle of a commit.
                w.save()?;
                let kind = r.below(4);
                let k = r.below(w.saved.len() as u64 + 1);
                let (kind, k) = if kind == 3 && r.chance(1, 2) { (1, k) } else { (kind, k) };
                trace(format!("commit interrupted: fault kind {kind} at {k}, {} entries pending", w.saved.len()));
                if sql(&w, &uri, &fault_sql(kind, k)).is_err() {
                    continue;
                }
                let mut gs = w.gs();
                let res = panics(|| w.rt.block_on(gs.commit()));
                drop(gs);
                let done = match res {
                    Ok(Ok((l, root))) => {
                        // The fault was not reached: the commit counts.
                        check!(l.0 as i64 == w.last() + 1, "commit made layer {}", l.0);
                        let c = w.now();
                        w.layers.push((c, Some(root)));
                        true
                    }
                    _ => false,
                };
                trace(format!("commit reported success: {done}"));
                w.close();
                if !done {
                    // A process that dies takes its database workers along; here they must first come to rest.
                    std::thread::sleep(std::time::Duration::from_millis(25));
                    let _ = sql(&w, &uri, "BEGIN EXCLUSIVE; COMMIT");
                    std::thread::sleep(std::time::Duration::from_millis(5));
                }
                if r.chance(1, 3) {
                    // Even cleaning up is interrupted.
                    let _ = sql(&w, &uri, r#"DROP TRIGGER IF EXISTS "vfault""#);
                    let kind = r.range(4, 5);
                    trace(format!("reopening interrupted: fault kind {kind}"));
                    if sql(&w, &uri, &fault_sql(kind, 0)).is_ok() {
                        let rt = &w.rt;
                        let _ = panics(|| rt.block_on(GlobalState::new(&uri, GenesisConfig::mainnet())));
                    }
                }
                sql(&w, &uri, r#"DROP TRIGGER IF EXISTS "vfault""#)?;
                w.reopen();
                w.verify_now()?;
                w.verify_history()?;
            }
            _ => {}
        }
    }
    w.save()?;
    w.commit()?;
    w.reopen();
    w.verify_now()?;
    w.verify_history()?;
    // The same layers, written without ever stopping, have the same roots.
    let s2 = Scratch::new();
    let mut w2 = World::open(s2.uri(), l, f);
    trace("uninterrupted twin");
    for i in 1..w.layers.len() {
        let (c, root) = w.layers[i].clone();
        reach(&mut w2, &c, r, false)?;
        check!(root == w2.layers.last().unwrap().1, "layer {}: root differs from that of the same history without interruptions", i as i64 - 1);
        w.checks += 1;
    }
    Ok(w.checks)
}

fn c05(i: u64, r: &mut Rng) -> Result<u64, String> {
    let s = Scratch::new();
    let mut layouts = vec![];
    for _ in 0..TEMPLATES {
        let n = r.range(1, 8);
        layouts.push(
            (0..n)
                .map(|_| match r.below(6) {
                    0 => *r.pick(&[1u32, 4, 8, 20]),
                    1 => *r.pick(&[31u32, 32, 33, 63, 64, 65]),
                    2 => r.range(1, 5) as u32,
                    3 => r.range(60, 200) as u32,
                    _ => r.range(1, 40) as u32,
                })
                .collect::<Vec<u32>>(),
        );
    }
    let firsts = vec![*r.pick(&[0u32, 0, 1, 7, 1000]), r.below(4) as u32];
    let _ = i;
    let mut w = World::open(s.uri(), layouts, firsts);
    trace(format!("layouts {:?} first ids {:?}", w.layouts, w.firsts));
    for t in 0..TEMPLATES {
        w.put(K::Tpl(t), V::Tpl(vec![t], vec![], "n".into()))?;
    }
    for a in 0..ACCOUNTS {
        w.put(K::Data(a), V::Data(format!("acc{a}"), a % TEMPLATES))?;
        w.put(K::Mut(a), V::Mut(r.edge(), r.edge() as u128))?;
    }
    for _ in 0..r.range(5, 30) {
        match r.below(10) {
            0..=5 => {
                let a = r.below(ACCOUNTS as u64) as u8;
                let t = a % TEMPLATES;
                let var = w.firsts[t as usize] + r.usize(w.layouts[t as usize].len()) as u32;
                let now = w.now();
                let k = K::Var(a, var);
                let v = w.random_value(r, &now, &k);
                let size = w.offset(t, var).1;
                // A buffer longer than the variable: only its first bytes count.
                if r.chance(1, 4) {
                    if let V::Bytes(b) = &v {
                        trace(format!("put {k:?} = {v:?} (longer buffer)"));
                        let mut buf = b.clone();
                        let n = r.range(1, 70) as usize;
                        buf.extend(r.bytes(n));
                        let mut acc = w.load(w.gs(), a)?;
                        w.rt.block_on(acc.set_var_bytes(var, &buf)).map_err(|e| format!("{e:?}"))?;
                        w.dirty.insert(k, v);
                    }
                } else if (size == 8 || size == 4) && r.chance(2, 3) {
                    let mut acc = w.load(w.gs(), a)?;
                    let x = r.edge();
                    trace(format!("set integer {k:?} = {x}"));
                    if size == 8 {
                        w.rt.block_on(acc.set_var_i64(var, x as i64)).map_err(|e| format!("{e:?}"))?;
                        let g = w.rt.block_on(acc.get_var_i64(var)).map_err(|e| format!("{e:?}"))?;
                        check!(g == x as i64, "variable {var}: wrote {}, read {g}", x as i64);
                        w.dirty.insert(k, V::Bytes(x.to_le_bytes().to_vec()));
                    } else {
                        w.rt.block_on(acc.set_var_i32(var, x as i32)).map_err(|e| format!("{e:?}"))?;
                        let g = w.rt.block_on(acc.get_var_i32(var)).map_err(|e| format!("{e:?}"))?;
                        check!(g == x as i32, "variable {var}: wrote {}, read {g}", x as i32);
                        w.dirty.insert(k, V::Bytes((x as u32).to_le_bytes().to_vec()));
                    }
                } else {
                    w.put(k, v)?
                }
                // Reading into a longer buffer leaves the rest of it alone.
                let acc = w.load(w.gs(), a)?;
                let mut buf = vec![0xA5u8; size as usize + 9];
                w.rt.block_on(acc.get_var(var, &mut buf)).map_err(|e| format!("{e:?}"))?;
                check!(buf[size as usize..] == [0xA5; 9], "reading variable {var} touched the buffer beyond its size");
                let arr = if size <= 64 { w.rt.block_on(acc.get_var_array::<64>(var)).map_err(|e| format!("{e:?}"))? } else { [0; 64] };
                if size <= 64 {
                    check!(arr[..size as usize] == buf[..size as usize], "reading variable {var} as an array differs");
                }
            }
            6 | 7 => {
                let a = r.below(ACCOUNTS as u64) as u8;
                let (b, c) = match w.now()[&K::Mut(a)] {
                    V::Mut(b, c) => (b, c),
                    _ => unreachable!(),
                };
                let v = if r.chance(1, 2) { V::Mut(r.edge(), c) } else { V::Mut(b, ((r.edge() as u128) << 64) | r.edge() as u128) };
                w.put(K::Mut(a), v)?;
            }
            8 => w.save()?,
            _ => {
                w.save()?;
                w.commit()?;
            }
        }
        w.verify_now()?;
    }
    Ok(w.checks)
}

fn main() {
    vcommon::main(&[
        Prop { id: "C01", case: c01, quick: 3000, thorough: 20000 },
        Prop { id: "C02", case: c02, quick: 3000, thorough: 20000 },
        Prop { id: "C03", case: c03, quick: 3000, thorough: 20000 },
        Prop { id: "C04", case: c04, quick: 3000, thorough: 20000 },
        Prop { id: "C05", case: c05, quick: 3000, thorough: 20000 },
    ])
}
