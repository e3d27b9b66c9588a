//! Property-based testing engine: choice-sequence generators, shrinking, isolated workers.
//!
//! Every random decision of a generator is one `draw` from `Gen`; the recorded sequence of draws
//! is what is shrunk (delete / zero / reduce), and the case that results is a serde value which
//! becomes the replay file.

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        fn mix(mut z: u64) -> u64 {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        Rng(mix(seed), mix(seed ^ 0xA5A5A5A5DEADBEEF) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        (r >> 11) ^ (r << 17)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub struct Gen {
    rng: Option<Rng>,
    prefix: Vec<u64>,
    pos: usize,
    pub record: Vec<u64>,
}

const MAX_DRAWS: usize = 60_000;

impl Gen {
    pub fn random(rng: Rng) -> Self {
        Gen {
            rng: Some(rng),
            prefix: vec![],
            pos: 0,
            record: vec![],
        }
    }
    pub fn replay(prefix: Vec<u64>) -> Self {
        Gen {
            rng: None,
            prefix,
            pos: 0,
            record: vec![],
        }
    }
    /// A number in 0..n; 0 is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.record.len() >= MAX_DRAWS {
            return 0;
        }
        let value = if self.pos < self.prefix.len() {
            self.prefix[self.pos].min(n - 1)
        } else if let Some(rng) = self.rng.as_mut() {
            rng.below(n)
        } else {
            0
        };
        self.pos += 1;
        self.record.push(value);
        value
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// lo..=hi, simplest is lo
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn pick_s(&mut self, items: &[&str]) -> String {
        items[self.below(items.len())].to_string()
    }
    /// index of a weighted choice, the first is the simplest
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }
    /// length of a list: geometric-ish, in lo..=hi
    pub fn len(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// Whether a list gets one more item: a flag before every item, so that deleting the draws
    /// of an item deletes the item. `num/den` is the chance to go on.
    pub fn more(&mut self, have: usize, lo: usize, hi: usize, num: u64, den: u64) -> bool {
        if have < lo {
            true
        } else if have >= hi {
            false
        } else {
            self.chance(num, den)
        }
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Gen) -> T) -> Vec<T> {
        let mut out = vec![];
        let span = (hi - lo + 1) as u64;
        while self.more(out.len(), lo, hi, span.max(2), span.max(2) + 1) {
            out.push(f(self));
        }
        out
    }
    /// A random subset that keeps the order of items.
    pub fn subset<T: Clone>(&mut self, items: &[T], num: u64, den: u64) -> Vec<T> {
        items
            .iter()
            .filter(|_| self.chance(num, den))
            .cloned()
            .collect()
    }
    pub fn shuffle<T>(&mut self, items: &mut Vec<T>) {
        let n = items.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            items.swap(i, j);
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Stats {
    pub fn label(&mut self, name: &str) {
        *self.labels.entry(name.to_string()).or_default() += 1;
    }
    pub fn label_n(&mut self, name: &str, n: u64) {
        *self.labels.entry(name.to_string()).or_default() += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

pub type Check = Result<(), String>;

pub trait Property {
    const ID: &'static str;
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    /// total cases of the quick and the thorough tier
    const CASES: (u64, u64);
    /// whether a case that does not terminate violates this property
    const HANG_IS_VIOLATION: bool = false;
    type Case: Serialize + DeserializeOwned + Send + 'static;
    fn gen(g: &mut Gen) -> Self::Case;
    fn check(case: &Self::Case, stats: &mut Stats) -> Check;
    fn extra_coverage(_labels: &BTreeMap<String, u64>) -> Value {
        Value::Null
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn run_check<P: Property>(case: &P::Case, stats: &mut Stats) -> Check {
    let result = catch_unwind(AssertUnwindSafe(|| P::check(case, stats)));
    match result {
        Ok(result) => result,
        Err(_) => {
            let text = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".into());
            Err(format!("panic: {text}"))
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

static CASE_START_CPU: AtomicU64 = AtomicU64::new(u64::MAX);
static CURRENT: Mutex<Vec<u64>> = Mutex::new(vec![]);

fn cpu_ms() -> u64 {
    unsafe {
        let mut usage: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut usage);
        (usage.ru_utime.tv_sec as u64) * 1000
            + (usage.ru_utime.tv_usec as u64) / 1000
            + (usage.ru_stime.tv_sec as u64) * 1000
            + (usage.ru_stime.tv_usec as u64) / 1000
    }
}

pub const HANG_CPU_MS: u64 = 20_000;
pub const EXIT_HANG: i32 = 97;

/// A case that burns more than HANG_CPU_MS of CPU time ends the process with EXIT_HANG after
/// its choices are written to `path`.
fn start_watchdog(path: Option<String>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let start = CASE_START_CPU.load(Ordering::SeqCst);
        if start != u64::MAX && cpu_ms().saturating_sub(start) > HANG_CPU_MS {
            if let Some(path) = &path {
                let choices = CURRENT.lock().unwrap().clone();
                let _ = std::fs::write(path, serde_json::to_string(&choices).unwrap());
            }
            unsafe { libc::_exit(EXIT_HANG) };
        }
    });
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: bytes,
            rlim_max: bytes,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn in_big_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // the size of an ordinary main thread
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(3))
}

fn case_seed<P: Property>(seed: u64, index: u64) -> u64 {
    fnv(format!("{}:{}:{}", P::ID, seed, index).as_bytes())
}

/// Runs the cases index, index+stride, ... < cases. Writes the result to `out`.
pub fn worker<P: Property>(seed: u64, index: u64, stride: u64, cases: u64, out: &str, trace: bool) {
    install_panic_hook();
    limit_memory(6 << 30);
    start_watchdog(Some(format!("{out}.choices")));
    let out = out.to_string();
    in_big_thread(move || {
        let mut total = Stats::default();
        let mut evaluations = 0u64;
        let mut distinct: HashSet<u64> = HashSet::new();
        let mut samples: Vec<Value> = vec![];
        let mut failure = Value::Null;
        let mut n = index;
        while n < cases {
            let mut g = Gen::random(Rng::new(case_seed::<P>(seed, n)));
            let case = P::gen(&mut g);
            if trace {
                std::fs::write(
                    format!("{out}.choices"),
                    serde_json::to_string(&g.record).unwrap(),
                )
                .unwrap();
            }
            *CURRENT.lock().unwrap() = g.record.clone();
            CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
            let mut stats = Stats::default();
            let result = run_check::<P>(&case, &mut stats);
            CASE_START_CPU.store(u64::MAX, Ordering::SeqCst);
            evaluations += 1;
            for (k, v) in stats.labels {
                *total.labels.entry(k).or_default() += v;
            }
            if stats.nontrivial {
                let text = serde_json::to_string(&case).unwrap();
                if distinct.insert(fnv(text.as_bytes())) && samples.len() < 2 && text.len() < 6000 {
                    samples.push(serde_json::from_str(&text).unwrap());
                }
            }
            if let Err(message) = result {
                let (choices, message, shrinks) = shrink::<P>(g.record.clone(), message);
                let case = P::gen(&mut Gen::replay(choices.clone()));
                failure = json!({"case": case, "message": message, "choices": choices, "shrinks": shrinks});
                break;
            }
            n += stride;
        }
        let result = json!({
            "evaluations": evaluations,
            "labels": total.labels,
            "distinct": distinct.into_iter().collect::<Vec<u64>>(),
            "samples": samples,
            "failure": failure,
        });
        std::fs::write(&out, serde_json::to_string(&result).unwrap()).unwrap();
    });
}

/// Shrinks the choice sequence in-process. Any failure is accepted as the same failure.
fn shrink<P: Property>(choices: Vec<u64>, message: String) -> (Vec<u64>, String, u64) {
    let started = Instant::now();
    let mut runs = 0u64;
    let test = |candidate: &[u64]| -> Option<(Vec<u64>, String)> {
        let mut g = Gen::replay(candidate.to_vec());
        let case = P::gen(&mut g);
        *CURRENT.lock().unwrap() = candidate.to_vec();
        CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
        let result = run_check::<P>(&case, &mut Stats::default());
        CASE_START_CPU.store(u64::MAX, Ordering::SeqCst);
        match result {
            Ok(()) => None,
            Err(message) => Some((g.record, message)),
        }
    };
    shrink_with(choices, message, &mut |c| {
        runs += 1;
        if runs > 6000 || started.elapsed().as_secs() > 25 {
            return None;
        }
        test(c)
    })
}

fn better(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink_with(
    mut best: Vec<u64>,
    mut message: String,
    test: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
) -> (Vec<u64>, String, u64) {
    let mut shrinks = 0;
    loop {
        let mut progress = false;
        // delete chunks
        for size in [256usize, 64, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                i -= size;
                if i + size > best.len() {
                    continue;
                }
                let mut candidate = best.clone();
                candidate.drain(i..i + size);
                if let Some((record, m)) = test(&candidate) {
                    if better(&record, &best) {
                        best = record;
                        message = m;
                        progress = true;
                        shrinks += 1;
                    }
                }
            }
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut candidate = best.clone();
                    candidate[i..i + size].iter_mut().for_each(|v| *v = 0);
                    if let Some((record, m)) = test(&candidate) {
                        if better(&record, &best) {
                            best = record;
                            message = m;
                            progress = true;
                            shrinks += 1;
                        }
                    }
                }
                i += size;
            }
        }
        // reduce values
        let mut i = 0;
        while i < best.len() {
            for next in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && next < best[i] {
                    let mut candidate = best.clone();
                    candidate[i] = next;
                    if let Some((record, m)) = test(&candidate) {
                        if better(&record, &best) {
                            best = record;
                            message = m;
                            progress = true;
                            shrinks += 1;
                        }
                    }
                }
            }
            i += 1;
        }
        if !progress {
            return (best, message, shrinks);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the parent side

pub enum Isolated {
    Pass,
    Fail(String),
    Crash(String),
    Hang,
}

/// Runs one case file in a process of its own.
pub fn isolated(id: &str, case_path: &str) -> Isolated {
    let exe = std::env::current_exe().unwrap();
    let output = std::process::Command::new(exe)
        .args(["one", id, case_path])
        .output()
        .expect("spawn");
    let stdout = String::from_utf8_lossy(&output.stdout).to_string();
    match output.status.code() {
        Some(0) => Isolated::Pass,
        Some(1) => Isolated::Fail(stdout.trim().to_string()),
        Some(EXIT_HANG) => Isolated::Hang,
        _ => Isolated::Crash(format!(
            "process ended with {}: {}",
            output.status,
            String::from_utf8_lossy(&output.stderr)
                .lines()
                .last()
                .unwrap_or("")
        )),
    }
}

/// `one ID FILE`: exit 0 when the case passes, 1 (message on stdout) when it fails
pub fn one<P: Property>(path: &str) -> i32 {
    install_panic_hook();
    limit_memory(6 << 30);
    start_watchdog(None);
    let text = match std::fs::read_to_string(path) {
        Ok(text) => text,
        Err(error) => {
            eprintln!("unable to read {path}: {error}");
            return 2;
        }
    };
    let value: Value = match serde_json::from_str(&text) {
        Ok(value) => value,
        Err(error) => {
            eprintln!("unable to parse {path}: {error}");
            return 2;
        }
    };
    let case: P::Case = match serde_json::from_value(value["case"].clone()) {
        Ok(case) => case,
        Err(error) => {
            eprintln!("unable to decode {path}: {error}");
            return 2;
        }
    };
    in_big_thread(move || {
        CASE_START_CPU.store(cpu_ms(), Ordering::SeqCst);
        let result = run_check::<P>(&case, &mut Stats::default());
        CASE_START_CPU.store(u64::MAX, Ordering::SeqCst);
        match result {
            Ok(()) => 0,
            Err(message) => {
                println!("{message}");
                1
            }
        }
    })
}

fn known_findings(root: &str, id: &str) -> Vec<(String, String)> {
    // entries that are open: {"property","status":"open","case":path,"what":text}
    let text = std::fs::read_to_string(format!("{root}/known_findings.json")).unwrap_or_default();
    let value: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let mut out = vec![];
    if let Some(list) = value["findings"].as_array() {
        for entry in list {
            if entry["property"] == id && entry["status"] == "open" {
                out.push((
                    entry["case"].as_str().unwrap_or("").to_string(),
                    entry["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    out
}

pub fn check<P: Property>(root: &str) -> i32 {
    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let mut cases = if tier == "quick" {
        P::CASES.0
    } else {
        P::CASES.1
    };
    if let Some(n) = std::env::var("HARNESS_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    let replays = format!("{root}/replays/{}", P::ID);
    let _ = std::fs::remove_dir_all(&replays);
    std::fs::create_dir_all(&replays).unwrap();
    let mut violations: Vec<(String, String)> = vec![];
    let mut errors: Vec<String> = vec![];

    // 1. committed regression cases, each in a process of its own
    let mut regress_run = 0u64;
    let known = known_findings(root, P::ID);
    let mut files: Vec<String> = std::fs::read_dir(format!("{root}/regress/{}", P::ID))
        .map(|dir| {
            dir.filter_map(|e| e.ok())
                .map(|e| e.path().to_string_lossy().to_string())
                .filter(|p| p.ends_with(".json"))
                .collect()
        })
        .unwrap_or_default();
    files.sort();
    for file in &files {
        regress_run += 1;
        let result = isolated(P::ID, file);
        let listed = known
            .iter()
            .find(|(case, _)| !case.is_empty() && file.ends_with(case.as_str()));
        let message = match result {
            Isolated::Pass => continue,
            Isolated::Fail(message) => message,
            Isolated::Crash(message) => {
                if message.contains("exit status: 2") {
                    errors.push(format!("{file}: {message}"));
                    continue;
                }
                message
            }
            Isolated::Hang if P::HANG_IS_VIOLATION => "does not terminate".to_string(),
            Isolated::Hang => {
                errors.push(format!("{file}: time limit"));
                continue;
            }
        };
        if let Some((_, what)) = listed {
            println!("KNOWN-FINDING: property={} {what}", P::ID);
        } else {
            let name = std::path::Path::new(file)
                .file_name()
                .unwrap()
                .to_string_lossy()
                .to_string();
            let path = format!("{replays}/regress-{name}");
            let _ = std::fs::copy(file, &path);
            violations.push((path, message));
        }
    }

    // 2. generated cases, in parallel worker processes
    let workers = 8u64.min(cases.max(1));
    let scratch = format!("{root}/replays/{}/.work-{}", P::ID, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let run = |index: u64, trace: bool| {
        let out = format!("{scratch}/w{index}{}.json", if trace { "t" } else { "" });
        let mut command = std::process::Command::new(&exe);
        command.args([
            "worker",
            P::ID,
            &seed.to_string(),
            &index.to_string(),
            &workers.to_string(),
            &cases.to_string(),
            &out,
        ]);
        if trace {
            command.arg("trace");
        }
        command.stdout(std::process::Stdio::null());
        command.stderr(std::process::Stdio::piped());
        (out, command.spawn().expect("spawn worker"))
    };
    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let children: Vec<_> = (0..workers).map(|index| (index, run(index, false))).collect();
    let mut finished = vec![];
    for (index, (out, child)) in children {
        let output = child.wait_with_output().expect("wait");
        finished.push((index, out, output));
    }
    let write_replay = |name: &str, case: &Value, message: &str, choices: &Value| {
        let path = format!("{replays}/{name}.json");
        let value = json!({"property": P::ID, "seed": seed, "message": message, "case": case, "choices": choices});
        std::fs::write(&path, serde_json::to_string_pretty(&value).unwrap()).unwrap();
        path
    };
    let mut crash_handled = false;
    for (index, out, output) in finished {
        if output.status.success() {
            let value: Value =
                serde_json::from_str(&std::fs::read_to_string(&out).unwrap_or_default())
                    .unwrap_or(Value::Null);
            if value.is_null() {
                errors.push(format!("worker {index} wrote no result"));
                continue;
            }
            evaluations += value["evaluations"].as_u64().unwrap_or(0);
            for (k, v) in value["labels"].as_object().unwrap() {
                *labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
            }
            for h in value["distinct"].as_array().unwrap() {
                distinct.insert(h.as_u64().unwrap());
            }
            for s in value["samples"].as_array().unwrap() {
                if samples.len() < 4 {
                    samples.push(s.clone());
                }
            }
            if !value["failure"].is_null() {
                let failure = &value["failure"];
                let message = failure["message"].as_str().unwrap_or("").to_string();
                let path = write_replay(
                    &format!("seed{seed}-w{index}"),
                    &failure["case"],
                    &message,
                    &failure["choices"],
                );
                violations.push((path, message));
            }
        } else {
            let hang = output.status.code() == Some(EXIT_HANG);
            if output.status.code().is_some() && !hang {
                errors.push(format!(
                    "worker {index} failed: {} {}",
                    output.status,
                    String::from_utf8_lossy(&output.stderr)
                ));
                continue;
            }
            if crash_handled && violations.len() > 0 {
                continue;
            }
            crash_handled = true;
            // find the case
            let choices_path = if hang {
                format!("{out}.choices")
            } else {
                let (out, child) = run(index, true);
                let _ = child.wait_with_output();
                format!("{out}.choices")
            };
            let choices: Vec<u64> = serde_json::from_str(
                &std::fs::read_to_string(&choices_path).unwrap_or_default(),
            )
            .unwrap_or_default();
            let case_of = |choices: &[u64]| {
                serde_json::to_value(P::gen(&mut Gen::replay(choices.to_vec()))).unwrap()
            };
            if hang && !P::HANG_IS_VIOLATION {
                write_replay(
                    &format!("seed{seed}-w{index}-hang"),
                    &case_of(&choices),
                    "time limit",
                    &json!(choices),
                );
                errors.push(format!("worker {index}: a case exceeds the time limit"));
                continue;
            }
            let probe = format!("{scratch}/probe.json");
            let begin = Instant::now();
            let mut runs = 0;
            let message = if hang {
                format!("does not terminate (more than {HANG_CPU_MS} ms of CPU time)")
            } else {
                format!("the process is aborted: {}", output.status)
            };
            let limit = if hang { 3 } else { 400 };
            let (choices, message, _) = shrink_with(choices, message, &mut |candidate| {
                runs += 1;
                if runs > limit || begin.elapsed().as_secs() > 90 {
                    return None;
                }
                let mut g = Gen::replay(candidate.to_vec());
                let case = P::gen(&mut g);
                let value = json!({"case": case});
                std::fs::write(&probe, serde_json::to_string(&value).unwrap()).unwrap();
                match isolated(P::ID, &probe) {
                    Isolated::Pass => None,
                    Isolated::Fail(m) => Some((g.record, m)),
                    Isolated::Crash(m) => Some((g.record, m)),
                    Isolated::Hang => Some((g.record, "does not terminate".into())),
                }
            });
            let path = write_replay(
                &format!("seed{seed}-w{index}-crash"),
                &case_of(&choices),
                &message,
                &json!(choices),
            );
            violations.push((path, message));
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    // 3. evidence
    let wall = started.elapsed().as_secs_f64();
    let mut coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": P::RULE,
        "samples": samples,
        "labels": labels,
        "regression_cases": regress_run,
    });
    let extra = P::extra_coverage(&labels);
    if let Some(extra) = extra.as_object() {
        for (k, v) in extra {
            coverage[k] = v.clone();
        }
    }
    let evidence = json!({
        "property": P::ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": ["generated-input search: absence of violations is evidence for the explored inputs only"],
        "wall_s": wall,
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(
        format!("{root}/evidence/{}.json", P::ID),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} regression cases, {:.1} s",
        P::ID,
        evaluations,
        distinct.len(),
        regress_run,
        wall
    );
    for error in &errors {
        println!("ERROR property={} {error}", P::ID);
    }
    for (path, message) in &violations {
        let message: String = message.chars().take(1500).collect();
        println!("-- {message}");
        println!("VIOLATION property={} replay={path}", P::ID);
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        0
    }
}

/// Prints label distribution and time of some cases; for development only.
pub fn sample<P: Property>(seed: u64, count: u64) {
    install_panic_hook();
    for n in 0..count {
        let mut g = Gen::random(Rng::new(case_seed::<P>(seed, n)));
        let case = P::gen(&mut g);
        println!("{}", serde_json::to_string_pretty(&case).unwrap());
    }
}
