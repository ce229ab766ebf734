// Shared by every generated program: case runner, event log, deterministic pseudo-random numbers.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn log(s: String) {
    let _ = LOG.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 20000 {
            l.push(s)
        }
    });
}
pub fn take_log() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

#[derive(Clone, Debug)]
pub struct R(pub u64);
impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed ^ 0x5851_f42d_4c95_7f2d);
        r.raw();
        r
    }
    pub fn raw(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 {
        self.raw() % n
    }
    pub fn us(&mut self, n: usize) -> usize {
        (self.raw() % n as u64) as usize
    }
    pub fn b(&mut self, num: u64, den: u64) -> bool {
        self.n(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.us(max + 1);
        (0..n).map(|_| self.n(256) as u8).collect()
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h ^ (h >> 29)
}

/// Driver context: random choices of the operation sequence; everything noted goes to the log.
pub struct D {
    pub r: R,
    pub seed: u64,
}
impl D {
    pub fn new(seed: u64) -> D {
        D { r: R::new(seed), seed }
    }
}

pub fn note<T: Debug>(what: &str, v: T) {
    log(format!("{what} = {v:?}"));
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Ok(s) = p.downcast::<String>() {
        *s
    } else {
        "?".into()
    }
}

/// Runs f, returns the events it caused, with a final entry when it panicked.
pub fn record<F: FnOnce()>(f: F) -> Vec<String> {
    take_log();
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut l = take_log();
    if let Err(p) = r {
        let t = panic_text(p);
        l.push(format!("PANIC {t}"));
    }
    l
}

pub fn diff(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(3);
    let cut = |s: &[String]| s[lo.min(s.len())..(i + 3).min(s.len())].iter().map(|x| x.chars().take(240).collect::<String>()).collect::<Vec<_>>();
    Some(format!("event {i}: got {:?}, expected {:?}", cut(a), cut(b)))
}

#[derive(Default)]
pub struct Cx {
    pub fails: Vec<String>,
    pub runs: u64,
    pub seed: u64,
    pub rounds: u64,
    pub stats: BTreeMap<String, u64>,
}
impl Cx {
    pub fn fail(&mut self, s: String) {
        if self.fails.len() < 5 {
            self.fails.push(s);
        }
    }
    pub fn check(&mut self, what: &str, ok: bool) {
        self.runs += 1;
        if !ok {
            self.fail(what.to_string());
        }
    }
    pub fn ensure(&mut self, ok: bool, what: impl FnOnce() -> String) {
        self.runs += 1;
        if !ok {
            self.fail(what());
        }
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n;
    }
    /// Both closures are run under `rounds` different seeds; their event logs must be equal.
    pub fn same(&mut self, what: &str, mut got: impl FnMut(&mut D), mut want: impl FnMut(&mut D)) {
        for i in 0..self.rounds {
            let s = hash(what) ^ self.seed.wrapping_mul(0x9e37_79b9) ^ i.wrapping_mul(0x1234_5677);
            let w = record(|| want(&mut D::new(s)));
            let g = record(|| got(&mut D::new(s)));
            self.runs += 1;
            self.stat("n_events", w.len() as u64);
            if w.last().is_some_and(|l| l.starts_with("PANIC")) {
                self.stat("n_panicking_runs", 1);
            }
            if let Some(d) = diff(&g, &w) {
                self.fail(format!("{what} (seed {s}): {d}"));
                return;
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(cases: &[(&str, fn(&mut Cx))]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    for (name, f) in cases {
        if !args.iter().any(|a| a == name) {
            continue;
        }
        println!("@START {name}");
        let mut cx = Cx { rounds: 24, ..Cx::default() };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        take_log();
        if let Err(p) = r {
            let t = panic_text(p);
            cx.fail(format!("case panicked: {t}"));
        }
        cx.stats.insert("runs".into(), cx.runs);
        let stats: Vec<String> = cx.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        println!(
            "@RES {{\"case\":{},\"ok\":{},\"detail\":{},\"stats\":{{{}}}}}",
            esc(name),
            cx.fails.is_empty(),
            esc(&cx.fails.join("\n").chars().take(4000).collect::<String>()),
            stats.join(",")
        );
    }
}
