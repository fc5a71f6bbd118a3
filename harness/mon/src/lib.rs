//! The monitor side every harness shares: seeded randomness, what was observed,
//! verdicts, evidence and replay files.
//!
//! Verdicts are three-valued. `Ctx::violation` records a witness; `Ctx::need` makes
//! the run inconclusive (exit 3, never a violation, never a pass) when a monitor
//! observed too little; otherwise the property held on what was observed.
pub use rand;
pub use serde_json::{json, Value};

use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    level: String,
    rule: Vec<String>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    sample_kinds: BTreeMap<String, usize>,
    counts: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    violations: Vec<(String, Value)>,
    vio_sigs: BTreeMap<String, u64>,
    known: Vec<(String, String)>, // (signature, description)
    known_hit: BTreeMap<String, u64>,
    needs: Vec<String>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a based: the same on every run
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

static CRUMB: OnceLock<Mutex<VecDeque<String>>> = OnceLock::new();
static LAST_PANIC: OnceLock<Mutex<String>> = OnceLock::new();

fn last_panic() -> String {
    LAST_PANIC
        .get()
        .map(|m| m.lock().map(|x| x.clone()).unwrap_or_default())
        .unwrap_or_default()
}

impl Ctx {
    fn new(prop: &str) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let mut known = vec![];
        let kf = std::env::var("VERIF_KNOWN").unwrap_or_default();
        if let Ok(text) = std::fs::read_to_string(&kf) {
            for line in text.lines() {
                if let Ok(v) = serde_json::from_str::<Value>(line) {
                    if v["property"] == prop && v["status"] == "known" {
                        known.push((
                            v["signature"].as_str().unwrap_or("").to_string(),
                            v["what"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            start: Instant::now(),
            level: "exploration".into(),
            rule: vec![],
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            sample_kinds: BTreeMap::new(),
            counts: BTreeMap::new(),
            assumptions: vec![],
            violations: vec![],
            vio_sigs: BTreeMap::new(),
            known,
            known_hit: BTreeMap::new(),
            needs: vec![],
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// q iterations in the quick tier, q*mult in the thorough one
    pub fn n(&self, q: usize, mult: usize) -> usize {
        // monitors that take a fraction of a second look further
        let k = match self.prop.as_str() {
            "B01" | "L02" | "H02" | "U04" => 20,
            "C01" | "C02" | "P01" | "P02" | "Q01" | "S02" | "T01" | "U01" | "U02" | "U03" | "U05" | "U06" => 8,
            "C03" | "L01" | "H03" | "N01" | "N02" | "Q02" | "M01" | "M02" | "S01" | "S03" | "T03" | "E03" | "G02" => 4,
            "M03" | "G01" => 2,
            _ => 1,
        };
        if self.thorough() {
            q * mult.max(k)
        } else {
            q * k
        }
    }
    /// a generator for the stream `label`; the same seed gives the same stream
    pub fn rng(&self, label: &str) -> StdRng {
        StdRng::seed_from_u64(h64(&(self.seed, label)))
    }
    pub fn level(&mut self, l: &str) {
        self.level = l.into();
    }
    pub fn rule(&mut self, r: &str) {
        self.rule.push(r.into());
    }
    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.into());
    }
    /// one evaluated case; `sig` Some(..) when it is non-trivial (counted distinct by value)
    pub fn case<T: Hash + ?Sized>(&mut self, sig: Option<&T>) {
        self.evals += 1;
        if let Some(s) = sig {
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h64(s));
            }
        }
    }
    /// add counts made by workers
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    pub fn distinct_hash(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(k.into()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.get(k).copied().unwrap_or(0)
    }
    /// keep up to 2 samples of each kind
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> Value) {
        let c = self.sample_kinds.entry(kind.into()).or_insert(0);
        if *c < 2 && self.samples.len() < 20 {
            *c += 1;
            let mut v = f();
            let s = v.to_string();
            if s.len() > 1000 {
                v = Value::String(s.chars().take(1000).collect());
            }
            self.samples.push(json!({ "kind": kind, "case": v }));
        }
    }
    /// the monitor must have observed at least `min` events of this kind, else inconclusive
    pub fn need(&mut self, k: &str, min: u64) {
        let got = self.get(k);
        if got < min {
            self.needs.push(format!("{k}: observed {got}, needs {min}"));
        }
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.needs.push(why.into());
    }
    /// `sig` identifies what fails (input class / call site), not the run
    pub fn violation(&mut self, sig: &str, detail: Value) {
        if self.known.iter().any(|(s, _)| s == sig) {
            *self.known_hit.entry(sig.into()).or_insert(0) += 1;
            return;
        }
        let c = self.vio_sigs.entry(sig.into()).or_insert(0);
        *c += 1;
        if *c <= 3 && self.violations.len() < 60 {
            self.violations.push((sig.into(), detail));
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    /// breadcrumbs, so a crash of the whole process can still name the case
    pub fn crumb(&self, s: impl Into<String>) {
        crumb(s)
    }
    /// run code under test; a panic on this (valid) case is a violation
    pub fn guard<R>(&mut self, sig: &str, detail: impl FnOnce() -> Value, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(_) => {
                let p = last_panic();
                self.violation(&format!("panic:{sig}"), json!({"panic": p, "case": detail()}));
                None
            }
        }
    }
}

pub fn crumb(s: impl Into<String>) {
    let m = CRUMB.get_or_init(Default::default);
    let mut g = m.lock().unwrap();
    if g.len() >= 8 {
        g.pop_front();
    }
    g.push_back(s.into());
}

/// catch a panic of the code under test; Err carries its message
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub type Monitor = fn(&mut Ctx);

/// main() of a harness: `bin <PROPERTY>`; runs the monitors registered for it.
pub fn main(table: &[(&str, Monitor)]) {
    let prop = std::env::args().nth(1).unwrap_or_else(|| {
        for (p, _) in table {
            println!("{p}");
        }
        std::process::exit(2)
    });
    let Some((_, f)) = table.iter().find(|(p, _)| *p == prop) else {
        eprintln!("no such property here: {prop}");
        std::process::exit(2)
    };
    let show = std::env::var_os("VERIF_SHOW_PANICS").is_some();
    std::panic::set_hook(Box::new(move |i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.get_or_init(Default::default).lock() {
            *g = format!("{msg} at {at}");
        }
        if show {
            eprintln!("panic: {msg} at {at}");
        }
    }));
    let mut c = Ctx::new(&prop);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
    if r.is_err() {
        let p = last_panic();
        // a panic the monitor did not guard: from the harness (our fault: an error) or
        // from the code under test (then it names a file of the staged repository)
        eprintln!("unguarded panic: {p}");
        let at = p.rsplit(" at ").next().unwrap_or("").to_string();
        let ours = at.contains("harness/") || at.contains("shims/");
        let theirs = !ours && (at.starts_with("common/") || at.starts_with("config/") || at.starts_with("tskv/") || at.starts_with("meta/") || at.starts_with("replication/") || at.starts_with("query_server/"));
        if theirs {
            c.violation("panic:unguarded", json!({"panic": p}));
        } else {
            c.inconclusive(&format!("harness panicked: {p}"));
        }
    }
    std::process::exit(finish(c));
}

fn finish(c: Ctx) -> i32 {
    let out = std::env::var("VERIF_OUT").unwrap_or_else(|_| "/verif/evidence".into());
    let tier = if c.thorough() { "thorough" } else { "quick" };
    let _ = std::fs::create_dir_all(format!("{out}/replay"));
    let mut coverage = serde_json::Map::new();
    coverage.insert("evaluations".into(), json!(c.evals));
    coverage.insert("distinct_nontrivial".into(), json!(c.distinct.len()));
    coverage.insert("rule".into(), json!(c.rule.join(" | ")));
    coverage.insert("samples".into(), json!(c.samples));
    coverage.insert("observed".into(), json!(c.counts));
    if !c.known_hit.is_empty() {
        coverage.insert("known_findings_hit".into(), json!(c.known_hit));
    }
    if !c.needs.is_empty() {
        coverage.insert("inconclusive".into(), json!(c.needs));
    }
    let ev = json!({
        "property": c.prop, "tier": tier, "seed": c.seed, "level": c.level,
        "coverage": coverage, "wall_s": c.start.elapsed().as_secs_f64(),
        "assumptions": c.assumptions,
        "violations": c.vio_sigs.values().sum::<u64>(),
    });
    let text = serde_json::to_string_pretty(&ev).unwrap();
    std::fs::write(format!("{out}/{}.json", c.prop), text).expect("write evidence");
    for (s, what) in &c.known {
        println!("KNOWN-FINDING: property={} {} (seen {} times this run)", c.prop, what, c.known_hit.get(s).copied().unwrap_or(0));
    }
    for (i, (sig, d)) in c.violations.iter().enumerate() {
        let p = format!("{out}/replay/{}-{}.json", c.prop, i);
        let _ = std::fs::write(
            &p,
            serde_json::to_string_pretty(&json!({
                "property": c.prop, "signature": sig, "seed": c.seed, "tier": tier, "witness": d,
                "replay_cmd": format!("VERIF_SEED={} VERIF_TIER={tier} ./run.py {}", c.seed, c.prop)
            })).unwrap(),
        );
        println!("  {sig}: {}", d.to_string().chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={p}", c.prop);
    }
    let _ = std::io::stdout().flush();
    if !c.violations.is_empty() {
        return 1;
    }
    if !c.needs.is_empty() {
        for n in &c.needs {
            println!("INCONCLUSIVE {}: {n}", c.prop);
        }
        return 3;
    }
    println!(
        "OK {} {tier} seed={} evaluations={} distinct={} {:.1}s {}",
        c.prop, c.seed, c.evals, c.distinct.len(), c.start.elapsed().as_secs_f64(), json!(c.counts)
    );
    0
}

// ---- generators several harnesses use -------------------------------------------------

pub trait GenExt: Rng {
    fn chance(&mut self, p: f64) -> bool {
        self.gen::<f64>() < p
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.gen_range(0..v.len())]
    }
    /// u64 biased to boundaries
    fn edgy_u64(&mut self) -> u64 {
        match self.gen_range(0..10) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::MAX - self.gen_range(0..4),
            4 => i64::MAX as u64 + self.gen_range(0..3),
            5 => (1u64 << self.gen_range(0..64)).wrapping_add(self.gen_range(0..3)).wrapping_sub(1),
            6 => self.gen_range(0..16),
            7 => self.gen::<u32>() as u64,
            8 => 10u64.pow(self.gen_range(0..20)),
            _ => self.gen(),
        }
    }
    fn edgy_i64(&mut self) -> i64 {
        match self.gen_range(0..10) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => -1,
            3 => -(self.gen_range(0..1000i64)),
            _ => self.edgy_u64() as i64,
        }
    }
    fn edgy_f64(&mut self) -> f64 {
        match self.gen_range(0..14) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::NAN,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            5 => f64::MIN,
            6 => f64::MAX,
            7 => f64::MIN_POSITIVE,
            8 => f64::from_bits(1),
            9 => f64::from_bits(self.gen()),
            10 => self.gen_range(-1000i64..1000) as f64,
            11 => self.gen_range(-1000i64..1000) as f64 / 10.0,
            _ => self.gen::<f64>() * 1e6,
        }
    }
    fn edgy_string(&mut self, max: usize) -> String {
        let n = self.gen_range(0..=max);
        let mode = self.gen_range(0..4);
        (0..n)
            .map(|_| match mode {
                0 => self.gen_range(b'a'..=b'e') as char,
                1 => *self.pick(&['a', 'Z', '0', ' ', ',', '=', '\\', '"', '\'', '\n', '\t', '_', '-', '.', '/', ':', '{', '}', '#', '\u{0}', 'é', '中', '😀', '\r', '%', '&', '<']),
                2 => self.gen_range(0x20u8..0x7f) as char,
                _ => char::from_u32(self.gen_range(0..0x11_0000)).unwrap_or('\u{fffd}'),
            })
            .collect()
    }
    fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = self.gen_range(0..=max);
        match self.gen_range(0..3) {
            0 => vec![self.gen(); n],
            1 => (0..n).map(|_| self.gen_range(0..4)).collect(),
            _ => (0..n).map(|_| self.gen()).collect(),
        }
    }
}
impl<R: Rng + ?Sized> GenExt for R {}

pub mod hist;

pub fn parse(s: &str) -> Option<Value> {
    serde_json::from_str(s).ok()
}
