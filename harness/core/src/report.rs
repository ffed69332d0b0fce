//! Counting, violation recording, known findings, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Install a silent panic hook remembering message and location.
pub fn init_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut m = msg;
        m.truncate(160);
        if std::env::var("MC_BT").is_ok() {
            eprintln!("PANIC {} at {}\n{}", m, loc, std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
/// Run code under test; a panic becomes Err(message at location).
pub fn guard<T, Fun: FnOnce() -> T>(f: Fun) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    states: Mutex<HashSet<u64>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<String, Vec<String>>>,
    viol: Mutex<BTreeMap<String, (u64, String)>>,
    assumptions: Mutex<Vec<String>>,
    bounds: Mutex<Vec<String>>,
    capped: std::sync::atomic::AtomicBool,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx {
            id: id.into(),
            tier,
            seed,
            start: Instant::now(),
            states: Mutex::new(HashSet::new()),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(BTreeMap::new()),
            viol: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            capped: std::sync::atomic::AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// pick bound by tier
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// a distinct model/implementation state (or distinct observed configuration)
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = h64(t);
        self.states.lock().unwrap().insert(h);
    }
    pub fn states_bulk(&self, it: HashSet<u64>) {
        self.states.lock().unwrap().extend(it);
    }
    /// one explored step of the system (an operation, a tamper, a choice)
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// one complete execution of the real code compared with the reference model
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, what: &str, n: u64) {
        *self.counters.lock().unwrap().entry(what.into()).or_insert(0) += n;
    }
    pub fn sample<Fun: FnOnce() -> String>(&self, kind: &str, f: Fun) {
        let mut s = self.samples.lock().unwrap();
        let e = s.entry(kind.into()).or_default();
        if e.len() < 3 {
            let mut t = f();
            if t.len() > 600 {
                let mut cut = 600;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
            }
            e.push(t);
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    /// record a violation; `key` names the failing input class / call site
    pub fn violate(&self, key: &str, detail: impl FnOnce() -> String) {
        let mut v = self.viol.lock().unwrap();
        match v.get_mut(key) {
            Some(e) => e.0 += 1,
            None => {
                v.insert(key.into(), (1, detail()));
            }
        }
    }
    pub fn check(&self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(key, detail);
        }
        ok
    }
    /// a cap cut the exploration short: the run does not claim exhaustiveness
    pub fn capped(&self) {
        self.capped.store(true, Ordering::SeqCst);
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Write evidence, print verdict lines, return exit code.
    pub fn finish(&self, verif: &str) -> i32 {
        let known = load_known(&format!("{}/known_findings.txt", verif));
        let viol = self.viol.lock().unwrap();
        let mut unexplained = 0;
        let mut known_hit = 0;
        let _ = std::fs::create_dir_all(format!("{}/replays", verif));
        for (key, (n, detail)) in viol.iter() {
            if let Some(k) = known.iter().find(|k| k.property == self.id && k.key == *key) {
                println!("KNOWN-FINDING: property={} {} ({} cases; key {})", self.id, k.what, n, key);
                known_hit += 1;
            } else {
                unexplained += 1;
                let path = format!("{}/replays/{}-{:016x}.txt", verif, self.id, h64(key.as_str()));
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property: {}\nkey: {}\noccurrences: {}\ntier: {:?}\nfirst failing case:\n{}\n\nreplay: bash /verif/check.sh {} {} (the exploration is deterministic; the case above is reached again)\n",
                        self.id, key, n, self.tier, detail, self.id, if self.tier == Tier::Quick {"quick"} else {"thorough"}
                    ),
                );
                println!("  violated: {} x{}: {}", key, n, detail);
                println!("VIOLATION property={} replay={}", self.id, path);
            }
        }
        let states = self.states.lock().unwrap().len() as u64;
        let transitions = self.transitions.load(Ordering::Relaxed);
        let traces = self.traces.load(Ordering::Relaxed);
        let mut samples = vec![];
        for (k, v) in self.samples.lock().unwrap().iter() {
            for s in v {
                samples.push(format!("{}: {}", k, s));
            }
        }
        let counters: Vec<String> = self
            .counters
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect();
        let wall = self.start.elapsed().as_secs_f64();
        let json = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"bounds\": [{}],\n  \"counters\": {{{}}},\n  \"known_findings_hit\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            js(&self.id),
            if self.tier == Tier::Quick { "\"quick\"" } else { "\"thorough\"" },
            self.seed,
            states,
            transitions,
            traces,
            !self.capped.load(Ordering::SeqCst),
            self.bounds.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            counters.join(", "),
            known_hit,
            samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "),
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            wall,
            unexplained,
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
        let part = std::env::var("MC_EVIDENCE_PART").unwrap_or_default();
        std::fs::write(format!("{}/evidence/{}{}.json", verif, self.id, part), json).expect("evidence");
        println!(
            "{}: states={} transitions={} traces={} known={} violations={} wall={:.1}s",
            self.id, states, transitions, traces, known_hit, unexplained, wall
        );
        if unexplained > 0 { 1 } else { 0 }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines `known: property=<id> key=<key> :: <what fails>`; `fixed:` and `#` lines are ignored.
fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            if let Some((id, rest)) = rest.split_once(" key=") {
                if let Some((key, what)) = rest.split_once(" :: ") {
                    v.push(Known { property: id.trim().into(), key: key.trim().into(), what: what.trim().into() });
                }
            }
        }
    }
    v
}

pub type PropFn = fn(&Ctx);
/// what a run has done so far, and whether a violation that is not listed has been seen
fn progress(ctx: &Ctx, known: &[Known]) -> (u64, bool) {
    let v = ctx.viol.lock().unwrap();
    let bad = v.keys().any(|k| !known.iter().any(|n| n.property == ctx.id && n.key == *k));
    let n: u64 = v.values().map(|x| x.0).sum();
    let c: u64 = ctx.counters.lock().unwrap().values().sum();
    let s = ctx.states.lock().unwrap().len() as u64;
    (n + c + s + ctx.transitions.load(Ordering::Relaxed) + ctx.traces.load(Ordering::Relaxed), bad)
}
/// Entry point shared by all harness binaries: `<bin> <ID> <quick|thorough>`. The exploration runs
/// in a child process, so that code under test that kills its process is noticed as well.
pub fn run_main(table: &[(&str, PropFn)]) -> ! {
    init_panics();
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let verif = std::env::var("MC_VERIF").unwrap_or("/verif".into());
    let f = match table.iter().find(|(n, _)| *n == id) {
        Some((_, f)) => *f,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    };
    if std::env::var("MC_CHILD").is_err() {
        let me = std::env::current_exe().unwrap();
        let st = std::process::Command::new("bash")
            .args(["-c", "ulimit -c 0; ulimit -v 24000000; exec \"$0\" \"$@\""])
            .arg(me)
            .args(&a[1..])
            .env("MC_CHILD", "1")
            .status();
        let code = st.as_ref().ok().and_then(|s| s.code());
        match code {
            Some(c) if c < 128 => std::process::exit(c),
            _ => {
                let ctx = Ctx::new(&id, tier);
                ctx.violate("the process dies", || format!("the code under test ends the process it runs in: {:?}", st));
                std::process::exit(ctx.finish(&verif))
            }
        }
    }
    let ctx = std::sync::Arc::new(Ctx::new(&id, tier));
    let c = ctx.clone();
    let worker = std::thread::Builder::new().stack_size(256 << 20).spawn(move || guard(|| f(&c))).unwrap();
    let known = load_known(&format!("{}/known_findings.txt", verif));
    let first = std::env::var("MC_FIRST").is_ok();
    let (mut last, mut moved, mut seen, mut wait) = (0, Instant::now(), None, 2);
    while !worker.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(wait));
        wait = (wait * 2).min(200);
        let (n, bad) = progress(&ctx, &known);
        if n != last {
            last = n;
            moved = Instant::now();
        }
        if bad && seen.is_none() {
            seen = Some(Instant::now());
        }
        // a violation is known: what else there is can wait
        let enough = seen.map_or(false, |t: Instant| first || t.elapsed().as_secs() > ctx.b(60, 600));
        let stuck = moved.elapsed().as_secs() > ctx.b(300, 1200);
        if stuck {
            ctx.violate("no answer", || "the code under test does not come back".into());
        }
        if enough || stuck {
            ctx.capped();
            let r = ctx.finish(&verif);
            std::process::exit(r);
        }
    }
    if let Err(m) = worker.join().unwrap() {
        // a panic that escaped the harness' own guards: raised by the code under test
        // outside a guarded call
        ctx.violate("escaped-panic", || m.clone());
    }
    std::process::exit(ctx.finish(&verif));
}
