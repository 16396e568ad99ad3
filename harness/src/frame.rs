//! Families of cases, evidence, panic capture, stacks.
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub r: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    pub verbose: bool,
}
pub type Res = Result<(), String>;
pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Res,
}
pub const fn fam(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx) -> Res) -> Family {
    Family { name, quick, thorough, run }
}
impl Ctx {
    pub fn new(seed: u64, tier: Tier) -> Ctx {
        Ctx {
            tier,
            seed,
            idx: 0,
            r: Rng::new(seed),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            known: vec![],
            verbose: false,
        }
    }
    pub fn start(&mut self, family: &str, idx: u64) {
        self.idx = idx;
        self.r = Rng::new(mix(self.seed ^ mix(hash_bytes(family.as_bytes()) ^ mix(idx))));
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(hash_bytes(b));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    /// The largest value seen
    pub fn most(&mut self, k: &str, n: u64) {
        let x = self.counters.entry(format!("max {}", k)).or_insert(0);
        *x = (*x).max(n);
    }
    pub fn sample(&mut self, per: usize, f: impl FnOnce() -> String) {
        if self.samples.len() < per {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}

thread_local!(static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", l, m));
    }));
}
/// Run f, turning a panic into an error text
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// Run f on a fresh thread with the given stack; a panic becomes an error text
pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(s, || catch(f))
            .expect("harness: thread")
            .join()
            .unwrap_or_else(|_| Err("thread died".into()))
    })
}
pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}…({} bytes)", s.chars().take(n).collect::<String>(), s.len())
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 400 {
            s.push_str(&format!("…({} bytes)", b.len()));
            break;
        }
        if i > 0 && i % 4 == 0 {
            s.push(' ');
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
/// First difference of two texts, with context
pub fn diff(got: &str, want: &str) -> String {
    let p = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let mut a = p.saturating_sub(40).min(s.len());
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        short(&s[a..], 160)
    };
    format!("at byte {}: got {:?}, expected {:?}", p, cut(got), cut(want))
}
