//! Running the generated cases of a property: in shards, with shrinking, replay files, known
//! findings and evidence.
use pcore::choice::{mix, Ch};
use pcore::lits::lits;
use pcore::tree::Fnv;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Ch, &mut Stats) -> Res;

/// What one kind of case is and how many there are.
pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Longest choice sequence.
    pub max: usize,
    pub run: CaseFn,
    /// Cases are the numbers below `quick`, as the first choice, instead of random choices.
    pub enumerated: bool,
    /// Random cases are followed by half as many that are guided by coverage.
    pub guided: bool,
}
impl Family {
    /// There is nothing to go by where the crate runs in other processes.
    pub fn unguided(self) -> Self {
        Family { guided: false, ..self }
    }
}
pub fn fam(name: &'static str, quick: u64, thorough: u64, max: usize, run: CaseFn) -> Family {
    Family { name, quick, thorough, max, run, enumerated: false, guided: true }
}
pub fn all_of(name: &'static str, n: u64, run: CaseFn) -> Family {
    Family { name, quick: n, thorough: n, max: 1, run, enumerated: true, guided: false }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub families: Vec<Family>,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeSet<(String, String)>,
    quiet: bool,
    /// A measure has grown.
    improved: bool,
    /// The text of the current case, for the report of a failure.
    pub input: String,
    pub values: BTreeMap<&'static str, f64>,
}
impl Stats {
    /// Counts one evaluated case.
    pub fn case<H: Hash>(&mut self, key: H, nontrivial: bool) {
        if self.quiet {
            return;
        }
        self.evals += 1;
        if nontrivial {
            let mut h = Fnv(0xcbf29ce484222325);
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn class<S: Into<String>>(&mut self, s: S) {
        if !self.quiet {
            *self.classes.entry(s.into()).or_default() += 1;
        }
    }
    pub fn class_if(&mut self, c: bool, s: &str) {
        if c {
            self.class(s);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.quiet && self.samples.len() < 3 {
            let s = f();
            self.samples.push(cut(&s, 600));
        }
    }
    /// The largest value seen of a measure.
    pub fn max(&mut self, k: &'static str, v: f64) {
        if !self.quiet {
            let x = self.values.entry(k).or_insert(v);
            if v > *x {
                *x = v;
                self.improved = true;
            }
        }
    }
    /// Whether a failure is a listed finding; if so it is noted as observed.
    pub fn known(&mut self, id: &str, sig: &str) -> bool {
        let k = (id.to_string(), sig.to_string());
        if known_findings().contains(&k) {
            self.known.insert(k);
            true
        } else {
            false
        }
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let mut r: String = s.chars().take(n).collect();
    r.push_str(" …");
    r
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn known_findings() -> &'static BTreeSet<(String, String)> {
    static K: std::sync::OnceLock<BTreeSet<(String, String)>> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        // Lines `known: property=<id> <signature>`; other lines suppress nothing.
        std::fs::read_to_string(format!("{}/known_findings.txt", root()))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let (id, sig) = l.strip_prefix("known: property=")?.split_once(' ')?;
                Some((id.to_string(), sig.trim().to_string()))
            })
            .collect()
    })
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line()));
            PANIC.with(|p| *p.borrow_mut() = format!("{m} at {}", at.unwrap_or_default()));
        } else {
            old(i)
        }
    }));
}
/// Runs code under test; a panic in it is an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

/// One case: a failed check or a panic in the code under test is an error.
fn case(p: &'static str, f: &Family, d: &[u32], s: &mut Stats) -> Res {
    s.input.clear();
    crate::work::begin(p, f.name, d);
    let f = f.run;
    let mut c = Ch::new(d);
    let r = guard(|| f(&mut c, s)).and_then(|r| r);
    crate::work::end();
    r
}

struct Failure {
    family: usize,
    shard: usize,
    choices: Vec<u32>,
    /// The case that failed first, its message and text.
    first: (Vec<u32>, String, String),
}

const SHARDS: usize = 8;
pub const STACK: usize = 1 << 30;

fn shard(p: &Prop, fi: usize, shard: usize, n: u64, seed: u64, stats: &mut Stats) -> Option<Failure> {
    let f = &p.families[fi];
    if f.enumerated {
        let mut i = shard as u64;
        while i < f.quick {
            let d = vec![i as u32];
            if let Err(m) = case(p.id, f, &d, stats) {
                let first = (d.clone(), m, stats.input.clone());
                return Some(Failure { family: fi, shard, choices: d, first });
            }
            i += SHARDS as u64;
        }
        return None;
    }
    let mut name = Fnv(0xcbf29ce484222325);
    (p.id, f.name).hash(&mut name);
    let seed = mix(mix(seed) ^ name.finish() ^ mix(shard as u64 + 77));
    let cases = n / SHARDS as u64 + u64::from((n % SHARDS as u64) > shard as u64);
    let config = Config {
        cases: cases as u32,
        rng_seed: RngSeed::Fixed(seed),
        failure_persistence: None,
        max_shrink_iters: 6000,
        // Affects how small a failing case gets only.
        max_shrink_time: 60_000,
        ..Config::default()
    };
    let m = f.max;
    let strategy = prop_oneof![
        2 => prop::collection::vec(any::<u32>(), 0..=16.min(m)),
        4 => prop::collection::vec(any::<u32>(), 8.min(m)..=80.min(m)),
        3 => prop::collection::vec(any::<u32>(), 40.min(m)..=m),
    ];
    let cell = RefCell::new(stats);
    let first = RefCell::new(None);
    let guided = RefCell::new(Guided { reached: crate::work::Reached::new(), corpus: vec![] });
    let mut runner = TestRunner::new(config);
    let r = runner.run(&strategy, |d| {
        let mut s = cell.borrow_mut();
        if s.quiet {
            // Shrinking.
            return case(p.id, f, &d, &mut s).map_err(TestCaseError::fail);
        }
        let mut g = guided.borrow_mut();
        let (r, new) = g.reached.by(|| case(p.id, f, &d, &mut s));
        if std::mem::take(&mut s.improved) | new {
            g.corpus.push(d.clone());
        }
        match r {
            Ok(()) => Ok(()),
            Err(e) => {
                s.quiet = true;
                *first.borrow_mut() = Some((d.clone(), e.clone(), s.input.clone()));
                Err(TestCaseError::fail(e))
            }
        }
    });
    match r {
        Ok(()) => {
            let mut g = guided.into_inner();
            let s = cell.into_inner();
            let more = if f.guided { cases / 2 } else { 0 };
            let r = g.search(p.id, f, more, seed, s).map(|(d, m)| {
                let first = (d.clone(), m, s.input.clone());
                Failure { family: fi, shard, choices: d, first }
            });
            s.max("most places reached by a shard", g.reached.places as f64);
            s.max("most cases kept for going somewhere new by a shard", g.corpus.len() as f64);
            r
        }
        Err(TestError::Fail(_, d)) => {
            let first = first.into_inner().unwrap_or_default();
            Some(Failure { family: fi, shard, choices: d, first })
        }
        Err(TestError::Abort(e)) => {
            println!("error: generation aborted: {e}");
            std::process::exit(3);
        }
    }
}

/// Search guided by coverage: cases that went somewhere new are kept and changed.
struct Guided {
    reached: crate::work::Reached,
    corpus: Vec<Vec<u32>>,
}
impl Guided {
    fn search(&mut self, p: &'static str, f: &Family, cases: u64, seed: u64, s: &mut Stats) -> Option<(Vec<u32>, String)> {
        let mut r = Rng(seed ^ 0x5eed);
        for _ in 0..cases {
            let d = if self.corpus.is_empty() { vec![] } else { self.changed(&mut r, f.max) };
            let (res, new) = self.reached.by(|| case(p, f, &d, s));
            if let Err(m) = res {
                return Some((d, m));
            }
            if std::mem::take(&mut s.improved) | new {
                self.corpus.push(d);
            }
        }
        None
    }
    fn changed(&self, r: &mut Rng, max: usize) -> Vec<u32> {
        let n = self.corpus.len();
        // The latest ones more often.
        let i = if r.below(3) == 0 { n - 1 - r.below(n.min(20)) } else { r.below(n) };
        let mut d = self.corpus[i].clone();
        let most = 1 + r.below(5);
        for _ in 0..1 + r.below(most) {
            let at = r.below(d.len() + 1);
            let most = [1, 2, 4, 16][r.below(4)];
            let k = 1 + r.below(most);
            let to = (at + k).min(d.len());
            match r.below(9) {
                0..=2 if at < d.len() => d[at] = r.next() as u32,
                3 if at < d.len() => d[at] = d[at].wrapping_add([1, 2, 3, 7, u32::MAX][r.below(5)]),
                4 => {
                    d.drain(at..to);
                }
                5 => {
                    let part: Vec<u32> = d[at..to].to_vec();
                    let w = r.below(d.len() + 1);
                    d.splice(w..w, part);
                }
                6 => {
                    let part: Vec<u32> = (0..k).map(|_| r.next() as u32).collect();
                    d.splice(at..at, part);
                }
                7 => {
                    let o = &self.corpus[r.below(n)];
                    let from = r.below(o.len() + 1);
                    let end = (from + 1 + r.below(60)).min(o.len());
                    let cut = if r.below(2) == 0 { d.len() } else { to };
                    d.splice(at..cut, o[from..end].iter().copied());
                }
                _ => d.extend((0..k * 4).map(|_| r.next() as u32)),
            }
        }
        d.truncate(max);
        d
    }
}
#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(1);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 16) as usize % n.max(1)
    }
}

/// Shortens the choices by whole blocks while the case still fails.
fn blocks(mut fails: impl FnMut(&[u32]) -> bool, mut d: Vec<u32>, mut budget: u32) -> Vec<u32> {
    let mut size = d.len().div_ceil(2).max(1);
    loop {
        let mut i = 0;
        while i < d.len() && budget > 0 {
            let mut e = d.clone();
            e.drain(i..(i + size).min(d.len()));
            budget -= 1;
            if fails(&e) {
                d = e;
            } else {
                i += size;
            }
        }
        if size == 1 || budget == 0 {
            return d;
        }
        size /= 2;
    }
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn save(id: &str, family: &str, choices: &[u32], msg: &str, input: &str) -> String {
    let dir = format!("{}/evidence/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{family}.txt");
    let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "property={id}\nfamily={family}\nchoices={}\n{}\n{msg}\n\ninput:\n{input}\n",
        list.join(","),
        lits().lines().iter().map(|l| format!("literal={l}\n")).collect::<String>(),
    );
    let _ = std::fs::write(&path, text);
    path
}

/// A case ran out of work. That cannot be unwound from, so it is shrunk in other processes and
/// ends this one.
pub fn out_of_work(id: &str, family: &str, d: Vec<u32>, input: &str) -> ! {
    static ONE: Mutex<()> = Mutex::new(());
    // Never released: only one thread gets past here.
    let _lock = ONE.lock();
    let msg = "the work limit was exceeded: does not terminate, or not in reasonable time";
    if std::env::var_os("VH_PROBE").is_some() {
        std::process::exit(9);
    }
    save(id, family, &d, msg, input);
    let d = shrink_elsewhere(id, family, d);
    give_up(id, family, &d, msg, input)
}
fn give_up(id: &str, family: &str, d: &[u32], msg: &str, input: &str) -> ! {
    let path = save(id, family, d, msg, input);
    let dir = format!("{}/evidence", root());
    let tier = std::env::args().nth(2).unwrap_or_default();
    let e = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": \"ended by the first failing case\", \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": 0, \"violations\": 1}}\n",
        json(id), json(&tier), seed(), json(&cut(input, 600)),
    );
    let _ = std::fs::write(format!("{dir}/{id}.json"), e);
    println!("{msg}\ninput: {}", cut(input, 3000));
    println!("VIOLATION property={id} replay={path}");
    std::process::exit(1);
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
/// Shrinks a case that ends its process.
fn shrink_elsewhere(id: &str, family: &str, d: Vec<u32>) -> Vec<u32> {
    let exe = std::env::current_exe().unwrap();
    let probe = format!("{}/evidence/replays/probe-{id}-{}", root(), std::process::id());
    let t0 = std::time::Instant::now();
    let d = blocks(
        |e| {
            let list: Vec<String> = e.iter().map(|c| c.to_string()).collect();
            let text = format!("family={family}\nchoices={}\n", list.join(","));
            t0.elapsed().as_secs() < 120
                && std::fs::write(&probe, text).is_ok()
                && std::process::Command::new(&exe)
                    .args([id, "--replay", &probe])
                    .env("VH_PROBE", "1")
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status()
                    .is_ok_and(|s| matches!(s.code(), Some(9 | crate::work::CRASHED)))
        },
        d,
        60,
    );
    let _ = std::fs::remove_file(&probe);
    d
}
/// Reports a crash whose case was noted in a file.
pub fn crashed(p: &Prop, file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let _ = std::fs::remove_file(file);
    let (fam, d) = saved(&text);
    if !p.families.iter().any(|f| f.name == fam) {
        println!("error: a crash outside of a case");
        return 3;
    }
    let d = shrink_elsewhere(p.id, &fam, d);
    let msg = "the process is aborted: stack overflow, out of memory or a panic while panicking";
    give_up(p.id, &fam, &d, msg, &format!("choices {d:?}"))
}
fn saved(text: &str) -> (String, Vec<u32>) {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or_default().to_string();
    (get("family="), get("choices=").split(',').filter_map(|x| x.parse().ok()).collect())
}

/// Runs a property and returns the exit code.
pub fn run(p: &Prop, tier: &str, seed: u64, level: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let thorough = tier == "thorough";
    let jobs: Vec<(usize, usize)> = (0..p.families.len())
        .flat_map(|f| (0..SHARDS).map(move |s| (f, s)))
        .collect();
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<((usize, usize), Stats, Option<Failure>)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..SHARDS {
            let (jobs, next, done) = (&jobs, &next, &done);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(&(f, s)) = jobs.get(i) else { return };
                    let fam = &p.families[f];
                    let n = if thorough { fam.thorough } else { fam.quick };
                    let mut st = Stats::default();
                    let r = shard(p, f, s, n, seed, &mut st);
                    done.lock().unwrap().push(((f, s), st, r));
                })
                .unwrap();
        }
    });
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|x| x.0);
    let mut all = Stats::default();
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let mut failure = None;
    let mut samples = vec![];
    for ((f, _), s, r) in done {
        let name = p.families[f].name;
        all.evals += s.evals;
        *per.entry(name).or_default() += s.evals;
        all.distinct.extend(s.distinct);
        for (k, v) in s.classes {
            *all.classes.entry(k).or_default() += v;
        }
        for (k, v) in s.values {
            all.max(k, v);
        }
        all.known.extend(s.known);
        if samples.iter().filter(|(n, _)| *n == name).count() < 3 {
            samples.extend(s.samples.into_iter().map(|x| (name, x)));
        }
        if failure.is_none() {
            failure = r;
        }
    }
    let mut code = 0;
    if let Some(f) = failure {
        let fam = &p.families[f.family];
        let small = if fam.enumerated {
            f.choices.clone()
        } else {
            let mut q = Stats { quiet: true, ..Stats::default() };
            let t0 = std::time::Instant::now();
            let mut fails = |d: &[u32]| t0.elapsed().as_secs() < 60 && case(p.id, fam, d, &mut q).is_err();
            let d = blocks(&mut fails, f.choices.clone(), 3000);
            // Lower what is left.
            lower(&mut fails, d)
        };
        let mut st = Stats { quiet: true, ..Stats::default() };
        let (choices, msg) = match case(p.id, fam, &small, &mut st) {
            Err(m) => (small, m),
            Ok(()) => {
                st.input.clear();
                match case(p.id, fam, &f.choices, &mut st) {
                    Err(m) => (f.choices, m),
                    Ok(()) => {
                        // What was observed contradicts the property all the same: the outcome
                        // depends on what the process did before.
                        let (d, m, input) = f.first;
                        st.input = input;
                        let how = format!(
                            "{m}\n(does not fail when repeated on its own: depends on the cases before it in shard {} of {SHARDS} with seed {seed})",
                            f.shard
                        );
                        (d, how)
                    }
                }
            }
        };
        let path = save(p.id, fam.name, &choices, &msg, &st.input);
        println!("{}", cut(&msg, 3000));
        println!("input: {}", cut(&st.input, 3000));
        println!("VIOLATION property={} replay={path}", p.id);
        code = 1;
    }
    for (id, sig) in &all.known {
        println!("KNOWN-FINDING: property={id} {sig}");
    }
    // Evidence.
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},", json(p.id));
    let _ = writeln!(e, " \"tier\": {},", json(if thorough { "thorough" } else { "quick" }));
    let _ = writeln!(e, " \"seed\": {seed},");
    let _ = writeln!(e, " \"level\": {},", json(level));
    let _ = writeln!(e, " \"coverage\": {{");
    let _ = writeln!(e, "  \"evaluations\": {},", all.evals);
    let _ = writeln!(e, "  \"distinct_nontrivial\": {},", all.distinct.len());
    let _ = writeln!(e, "  \"rule\": {},", json(p.rule));
    let fams: Vec<String> = per.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    let _ = writeln!(e, "  \"cases_per_family\": {{{}}},", fams.join(", "));
    let cls: Vec<String> = all.classes.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    let _ = writeln!(e, "  \"classes\": {{{}}},", cls.join(", "));
    let vals: Vec<String> = all.values.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    let _ = writeln!(e, "  \"measures\": {{{}}},", vals.join(", "));
    let sam: Vec<String> = samples
        .iter()
        .map(|(n, s)| json(&format!("[{n}] {s}")))
        .collect();
    let _ = writeln!(e, "  \"samples\": [{}]", sam.join(",\n   "));
    let _ = writeln!(e, " }},");
    let asm: Vec<String> = p.assumptions.iter().map(|a| json(a)).collect();
    let _ = writeln!(e, " \"assumptions\": [{}],", asm.join(", "));
    let _ = writeln!(e, " \"wall_s\": {:.3},", t0.elapsed().as_secs_f64());
    let _ = writeln!(e, " \"violations\": {code}");
    e.push_str("}\n");
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(format!("{dir}/{}.json", p.id), e) {
        println!("error: cannot write evidence: {x}");
        return 3;
    }
    println!(
        "{} {tier} seed={seed}: {} cases, {} distinct non-trivial, {:.1} s",
        p.id,
        all.evals,
        all.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

/// Lowers single choices while the case still fails.
fn lower(mut fails: impl FnMut(&[u32]) -> bool, mut d: Vec<u32>) -> Vec<u32> {
    for i in 0..d.len().min(200) {
        for v in [0, 1, 2, 3, 4, 5, 7, 11] {
            if v >= d[i] {
                break;
            }
            let old = std::mem::replace(&mut d[i], v);
            if fails(&d) {
                break;
            }
            d[i] = old;
        }
    }
    d
}

/// Runs one saved case again.
pub fn replay(p: &Prop, file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            println!("error: {file}: {e}");
            return 3;
        }
    };
    if text.starts_with("property=") {
        // The dictionary at the time; nothing has used it yet.
        let l: Vec<&str> = text.lines().take_while(|l| *l != "input:").filter_map(|l| l.strip_prefix("literal=")).collect();
        std::env::set_var("VH_LITERALS", l.join("\n"));
    }
    let (fam, d) = saved(&text);
    let Some(f) = p.families.iter().find(|f| f.name == fam) else {
        println!("error: no family {fam}");
        return 3;
    };
    let mut st = Stats::default();
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || case(p.id, f, &d, &mut st))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("replay passed");
            0
        }
        Err(m) => {
            println!("{m}\ninput: {}", st.input);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
    }
}
