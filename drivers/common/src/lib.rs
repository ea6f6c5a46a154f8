//! Shared by the concrete drivers: a seeded generator, the case loop, replay of a single case.
//!
//! A driver runs `DRIVER PROPERTY --seed S --cases N --secs T [--case I]`. Every case is determined by
//! (property, seed, index), so `--case I` replays one. Exit codes: 0 held on everything explored,
//! 3 a reproducible failing case (printed as FAIL...), anything else: the driver itself broke.

use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.u64() % n
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// A number biased to the corners of 64 bits.
    pub fn edge(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => {
                let s = self.below(64);
                let d = self.below(3);
                (1u64 << s).wrapping_sub(1).wrapping_add(d)
            }
            3 => self.below(1000),
            4 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
    pub fn edge_u32(&mut self) -> u32 {
        match self.below(5) {
            0 => self.below(4) as u32,
            1 => u32::MAX - self.below(4) as u32,
            2 => (1u32 << self.below(32)).wrapping_sub(1).wrapping_add(self.below(3) as u32),
            3 => self.below(1000) as u32,
            _ => self.u64() as u32,
        }
    }
    pub fn text(&mut self, max: usize) -> String {
        let n = self.usize(max + 1);
        const A: &[char] = &['a', 'b', 'z', 'A', '0', '9', '_', ' ', '-', 'é', '漢', '~', '\0', '\n', '\t', '"', '\\', ':', '\u{7f}', '\u{80}', '\u{feff}', '\u{301}', '😀'];
        // Any character may stand anywhere; the ends are where trimming would show.
        let plain = self.chance(1, 2);
        let mut s: String = (0..n).map(|_| *self.pick(if plain { &A[..12] } else { A })).collect();
        if self.chance(1, 4) {
            s.push(*self.pick(A));
        }
        if self.chance(1, 6) {
            s.insert(0, *self.pick(A));
        }
        while s.len() > max {
            s.pop();
        }
        s
    }
}

thread_local! { static TRACE: RefCell<Vec<String>> = RefCell::new(Vec::new()); }

pub fn trace(s: impl Into<String>) {
    let s = s.into();
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() < 4000 {
            t.push(s)
        }
    })
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn panic_msg(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "(panic)".into()
    }
}

/// Runs `f`, telling whether it panicked. Panic messages are kept quiet.
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&*e))
}

pub struct Prop {
    pub id: &'static str,
    /// Index -> deterministic case. Ok(n): n elementary checks held.
    pub case: fn(u64, &mut Rng) -> Result<u64, String>,
    /// Number of cases in the quick and thorough tiers.
    pub quick: u64,
    pub thorough: u64,
}

/// Something about the sandbox rather than the code: never reported.
fn environmental(msg: &str) -> bool {
    ["database is locked", "disk I/O", "disk is full", "Too many open files", "No space left"]
        .iter()
        .any(|x| msg.contains(x))
}

fn run_case(p: &Prop, seed: u64, i: u64) -> Result<u64, String> {
    TRACE.with(|t| t.borrow_mut().clear());
    let mut rng = Rng::new(seed, i + 1);
    match catch_unwind(AssertUnwindSafe(|| (p.case)(i, &mut rng))) {
        Ok(r) => r,
        Err(e) => Err(format!("unexpected panic: {}", panic_msg(&*e))),
    }
}

pub fn main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].parse::<u64>().unwrap());
    let id = args.get(1).cloned().unwrap_or_default();
    let ps: Vec<&Prop> = props.iter().filter(|p| p.id == id).collect();
    if ps.is_empty() {
        eprintln!("unknown property {id:?}; known: {:?}", props.iter().map(|p| p.id).collect::<Vec<_>>());
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let seed = get("--seed").unwrap_or(1);
    let secs = get("--secs").unwrap_or(60);
    let thorough = args.iter().any(|a| a == "--thorough");
    // Names each case before running it, to find the one that kills the process.
    let announce = args.iter().any(|a| a == "--announce");
    let t0 = Instant::now();
    let (mut cases, mut checks, mut flaky) = (0u64, 0u64, 0u64);
    for (pi, p) in ps.iter().enumerate() {
        let limit = get("--cases").unwrap_or(if thorough { p.thorough } else { p.quick });
        let share = secs * (pi as u64 + 1) / ps.len() as u64;
        let only = get("--case");
        if let (Some(_), Some(part)) = (only, get("--part")) {
            if part != pi as u64 {
                continue;
            }
        }
        let (from, to) = match only {
            Some(c) => (c, c + 1),
            None => (0, limit),
        };
        let shards = get("--shards").unwrap_or(1);
        let shard = get("--shard").unwrap_or(0);
        for i in from..to {
            if only.is_none() && (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) % shards != shard {
                continue;
            }
            if t0.elapsed().as_secs() >= share && only.is_none() {
                break;
            }
            if announce {
                use std::io::Write;
                println!("CASE {pi} {i}");
                std::io::stdout().flush().ok();
            }
            match run_case(p, seed, i) {
                Ok(n) => checks += n,
                Err(msg) => {
                    if environmental(&msg) {
                        flaky += 1;
                        continue;
                    }
                    // Report what can be reproduced only.
                    let tr = TRACE.with(|t| t.borrow().clone());
                    let again = (0..5).find_map(|_| run_case(p, seed, i).err());
                    match again {
                        Some(m2) if !environmental(&m2) => {
                            for l in &tr {
                                println!("TRACE {l}");
                            }
                            println!("FAIL property={id} part={pi} seed={seed} case={i}: {msg}");
                            println!("REPLAY {} {id} --seed {seed} --part {pi} --case {i}", args[0]);
                            std::process::exit(3);
                        }
                        _ => {
                            println!("NOTE not reproducible: part={pi} case={i}: {msg}");
                            flaky += 1
                        }
                    }
                }
            }
            cases += 1;
        }
    }
    println!(
        "DONE property={id} seed={seed} cases={cases} checks={checks} not_reproducible={flaky} secs={:.1}",
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

/// A scratch directory, removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = std::path::PathBuf::from(base).join(format!(
            "svm-verif-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn uri(&self) -> String {
        format!("sqlite://{}/db.sqlite?mode=rwc", self.0.display())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
