//! Exploration engine: counters, violation/known-finding reporting, evidence, watchdog,
//! panic capture and a generic explicit-state breadth-first search.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub what: String,
    pub case: Value,
}

#[derive(Default)]
struct Inner {
    fails: BTreeMap<String, (Fail, u64)>,
    samples: BTreeMap<String, Vec<Value>>,
    extra: BTreeMap<String, Value>,
    bounds: Vec<String>,
    outcomes: BTreeMap<String, u64>,
}

/// Shared, thread-safe context of one check run.
pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub evals: AtomicU64,
    pub nontrivial: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub start: Instant,
    /// save/restore mode: every explored transition is repeated on restored copies, only their differences are judged
    pub restore: std::sync::atomic::AtomicBool,
    inner: Mutex<Inner>,
    seen: Mutex<HashSet<u64>>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::SeqCst);
}
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
const NSLOT: usize = 4096;
static SLOTS: [AtomicU64; NSLOT] = [const { AtomicU64::new(0) }; NSLOT];
static NAMES: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);
/// seconds a single guarded call may take before it is reported as non-terminating
pub const HANG_SECS: u64 = 40;

fn now_ms() -> u64 {
    let t = T0.lock().unwrap();
    t.map(|t| t.elapsed().as_millis() as u64 + 1).unwrap_or(1)
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

pub fn hash128(s: &[u8]) -> u128 {
    let h = blake3::hash(s);
    u128::from_le_bytes(h.as_bytes()[..16].try_into().unwrap())
}

/// The first panic outside a guarded call: an operation the exploration relies on (an honest step, a conversion
/// of a result) did not do what it always does.
pub static ENGINE_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hooks() {
    *T0.lock().unwrap() = Some(Instant::now());
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let in_guard = SLOT.with(|s| SLOTS[*s % NSLOT].load(Ordering::Relaxed) != 0);
        if !in_guard {
            eprintln!("harness panic: {msg} at {loc}");
            if let Ok(mut e) = ENGINE_PANIC.lock() {
                e.get_or_insert(format!("{msg} at {loc}"));
            }
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// Starts the watchdog: a guarded call of the code under test that does not return within
/// HANG_SECS is a violation (every operation explored here is documented to terminate).
pub fn start_watchdog(id: &str, replay_dir: &str) {
    let id = id.to_string();
    let dir = replay_dir.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for i in 0..NSLOT.min(NEXT_SLOT.load(Ordering::SeqCst)) {
            let v = SLOTS[i].load(Ordering::Relaxed);
            if v != 0 && now > v + HANG_SECS * 1000 {
                let name = NAMES.lock().unwrap().get(&i).cloned().unwrap_or_default();
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{id}-hang.json");
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&json!({"property": id, "key":"hang","what":"call did not terminate","case":name})).unwrap(),
                );
                println!("hang: {name}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

/// Runs `f` (code under test) converting a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| *s) % NSLOT;
    let prev = SLOTS[slot].load(Ordering::Relaxed);
    if prev == 0 {
        SLOTS[slot].store(now_ms(), Ordering::Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if prev == 0 {
        SLOTS[slot].store(0, Ordering::Relaxed);
    }
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Names the case the current thread is working on (shown if the watchdog fires).
pub fn name_case(s: &str) {
    let slot = SLOT.with(|s| *s) % NSLOT;
    NAMES.lock().unwrap().insert(slot, s.to_string());
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Ctx {
        Ctx {
            id: id.to_string(),
            tier,
            evals: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            start: Instant::now(),
            restore: Default::default(),
            inner: Mutex::new(Inner::default()),
            seen: Mutex::new(HashSet::new()),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn eval(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }
    pub fn evals_add(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    /// Counts a non-trivial case; distinctness is by construction of the enumeration.
    pub fn nontriv(&self) {
        self.nontrivial.fetch_add(1, Ordering::Relaxed);
    }
    pub fn nontriv_add(&self, n: u64) {
        self.nontrivial.fetch_add(n, Ordering::Relaxed);
    }
    /// Counts a case as distinct by hash.
    pub fn distinct(&self, key: &[u8]) -> bool {
        let new = self.seen.lock().unwrap().insert(fnv(key));
        if new {
            self.nontriv();
        }
        new
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn bound(&self, s: impl Into<String>) {
        let s = s.into();
        let mut i = self.inner.lock().unwrap();
        if !i.bounds.contains(&s) {
            i.bounds.push(s);
        }
    }
    pub fn outcome(&self, s: &str) {
        *self.inner.lock().unwrap().outcomes.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn outcome_n(&self, s: &str, n: u64) {
        *self.inner.lock().unwrap().outcomes.entry(s.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, group: &str, v: impl FnOnce() -> Value) {
        let mut i = self.inner.lock().unwrap();
        let e = i.samples.entry(group.to_string()).or_default();
        if e.len() < 3 {
            let v = v();
            e.push(v);
        }
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.inner.lock().unwrap().extra.insert(k.to_string(), v);
    }
    /// Reports a violating case. `key` identifies what fails (used to match known findings).
    pub fn fail(&self, key: &str, what: impl Into<String>, case: Value) {
        if self.restoring() && !key.starts_with("restore") && key != "state-bound" && key != "honest-step-failed" {
            return;
        }
        let mut i = self.inner.lock().unwrap();
        let e = i.fails.entry(key.to_string()).or_insert_with(|| {
            (
                Fail {
                    key: key.to_string(),
                    what: what.into(),
                    case,
                },
                0,
            )
        });
        e.1 += 1;
    }
    pub fn check(&self, ok: bool, key: &str, what: &str, case: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.fail(key, what, case());
        }
        ok
    }
    /// Guarded call that must not panic.
    pub fn nopanic<T>(&self, key: &str, case: impl Fn() -> Value, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(key, format!("panic: {m}"), case());
                None
            }
        }
    }
    pub fn restoring(&self) -> bool {
        self.restore.load(Ordering::Relaxed)
    }
    pub fn nfails(&self) -> usize {
        self.inner.lock().unwrap().fails.len()
    }

    /// Prints the verdict, writes evidence and replay files; returns the process exit code.
    pub fn finish(&self, level: &str, rule: &str, exhaustive: bool, assumptions: &[&str], verif: &str) -> i32 {
        let inner = self.inner.lock().unwrap();
        let known = load_known(&format!("{verif}/KNOWN_FINDINGS.txt"), &self.id);
        let mut viol = vec![];
        let mut knowns = vec![];
        for (k, (f, n)) in inner.fails.iter() {
            if let Some(desc) = known.get(k) {
                knowns.push((f.clone(), *n, desc.clone()));
            } else {
                viol.push((f.clone(), *n));
            }
        }
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        for (f, n, desc) in &knowns {
            println!(
                "KNOWN-FINDING: property={} {} [key={} cases={}] {}",
                self.id, desc, f.key, n, f.what
            );
        }
        let mut code = 0;
        for (idx, (f, n)) in viol.iter().enumerate() {
            code = 1;
            let path = format!("{dir}/{}-{}.json", self.id, idx);
            let tier = if self.thorough() { "thorough" } else { "quick" };
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": self.id, "key": f.key, "what": f.what, "case": f.case, "count": n,
                    "tier": tier,
                    "replay": format!("bash /verif/check.sh {} {}   # deterministic: the same case fails again; the case is spelled out above", self.id, tier)
                }))
                .unwrap(),
            );
            println!("  key={} cases={} : {}", f.key, n, f.what);
            println!("  case: {}", trunc(&f.case.to_string(), 600));
            println!("VIOLATION property={} replay={}", self.id, path);
        }
        let mut samples = vec![];
        for (g, v) in inner.samples.iter() {
            for s in v {
                samples.push(json!({"kind": g, "case": s}));
            }
        }
        if samples.is_empty() {
            samples.push(json!("(no samples recorded)"));
        }
        let mut cov = serde_json::Map::new();
        let ld = |a: &AtomicU64| a.load(Ordering::Relaxed);
        cov.insert("rule".into(), json!(rule));
        cov.insert("samples".into(), json!(samples));
        cov.insert("exhaustive".into(), json!(exhaustive));
        cov.insert("bounds".into(), json!(inner.bounds));
        if level == "model_checking" {
            cov.insert("states".into(), json!(ld(&self.states)));
            cov.insert("transitions".into(), json!(ld(&self.transitions)));
            cov.insert("traces_validated_against_impl".into(), json!(ld(&self.traces)));
            if ld(&self.evals) > 0 {
                cov.insert("evaluations".into(), json!(ld(&self.evals)));
            }
        } else {
            cov.insert("evaluations".into(), json!(ld(&self.evals)));
            cov.insert("distinct_nontrivial".into(), json!(ld(&self.nontrivial)));
            if ld(&self.states) > 0 {
                cov.insert("states".into(), json!(ld(&self.states)));
                cov.insert("transitions".into(), json!(ld(&self.transitions)));
            }
        }
        if !inner.outcomes.is_empty() {
            cov.insert("outcomes".into(), json!(inner.outcomes));
        }
        for (k, v) in inner.extra.iter() {
            cov.insert(k.clone(), v.clone());
        }
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        std::fs::write(
            format!("{verif}/evidence/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
        println!(
            "{}: tier={:?} evals={} nontrivial={} states={} transitions={} traces={} violations={} known={} wall={:.1}s",
            self.id, self.tier, ld(&self.evals), ld(&self.nontrivial), ld(&self.states), ld(&self.transitions),
            ld(&self.traces), viol.len(), knowns.len(), self.start.elapsed().as_secs_f64()
        );
        for (o, n) in inner.outcomes.iter() {
            println!("    outcome {o}: {n}");
        }
        code
    }
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        format!("{}…", s.chars().take(n).collect::<String>())
    }
}

fn load_known(path: &str, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let txt = std::fs::read_to_string(path).unwrap_or_default();
    for line in txt.lines() {
        // finding: property=<id> key=<key> <description>
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut prop = "";
            let mut key = "";
            let mut it = rest.splitn(3, ' ');
            if let Some(p) = it.next().and_then(|x| x.strip_prefix("property=")) {
                prop = p;
            }
            if let Some(k) = it.next().and_then(|x| x.strip_prefix("key=")) {
                key = k;
            }
            let desc = it.next().unwrap_or("").to_string();
            if prop == id && !key.is_empty() {
                m.insert(key.to_string(), desc);
            }
        }
    }
    m
}

/// Runs `f(i)` for i in 0..n on all cores.
pub fn par<F: Fn(usize) + Sync>(n: usize, f: F) {
    let next = AtomicUsize::new(0);
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..nt.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

pub fn par_items<T: Sync, F: Fn(&T) + Sync>(items: &[T], f: F) {
    par(items.len(), |i| f(&items[i]));
}

/// Explicit-state BFS. `key` canonicalises; `succ` returns (label, next) and performs its own checks.
/// Returns (states, transitions, complete).
pub fn bfs<S: Clone, K: Hash + Eq, L: Clone>(
    init: Vec<S>,
    max_states: usize,
    mut key: impl FnMut(&S) -> K,
    mut visit: impl FnMut(&S, &[L]),
    mut succ: impl FnMut(&S, &[L]) -> Vec<(L, S)>,
) -> (u64, u64, bool) {
    let mut seen: HashSet<K> = HashSet::new();
    let mut q: VecDeque<(S, Vec<L>)> = VecDeque::new();
    let (mut ns, mut nt) = (0u64, 0u64);
    for s in init {
        if seen.insert(key(&s)) {
            ns += 1;
            visit(&s, &[]);
            q.push_back((s, vec![]));
        }
    }
    while let Some((s, path)) = q.pop_front() {
        for (l, n) in succ(&s, &path) {
            nt += 1;
            if seen.insert(key(&n)) {
                ns += 1;
                let mut p = path.clone();
                p.push(l);
                visit(&n, &p);
                if seen.len() >= max_states {
                    return (ns, nt, false);
                }
                q.push_back((n, p));
            }
        }
    }
    (ns, nt, true)
}

/// All permutations of 0..n (lexicographic).
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(n, cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut vec![false; n], &mut out);
    out
}

/// All subsets of 0..n of size k.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for m in 0u32..(1 << n) {
        if m.count_ones() as usize == k {
            out.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    }
    out
}

/// All tuples of length k over 0..base.
pub fn tuples(base: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let n = base.pow(k as u32);
    for mut x in 0..n {
        let mut v = vec![0; k];
        for d in v.iter_mut() {
            *d = x % base;
            x /= base;
        }
        out.push(v);
    }
    out
}

/// 2^k - 1, 2^k, 2^k + 1 for lo <= k <= hi: sizes around every power of two.
pub fn widths(lo: u32, hi: u32) -> Vec<usize> {
    (lo..=hi).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect()
}
/// Byte positions worth altering in a string of n bytes: around every power of two from both ends, and the last one.
pub fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..24).flat_map(|k| [(1usize << k) - 1, 1 << k]).filter(|i| *i < n).collect();
    v.extend((0..24).map(|k| n.wrapping_sub(1 << k)).filter(|i| *i < n));
    v.push(n / 2);
    v.sort();
    v.dedup();
    v.retain(|i| *i < n);
    v
}
