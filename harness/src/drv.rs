//! Case driver and reporting: parallel deterministic cases, panic capture, watchdog,
//! replay files, evidence JSON.
use crate::rng::{Rng, hash_bytes, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Cfg {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub work: String,
    pub evidence: String,
    pub only: Option<u64>,
    /// soft wall-clock cap for case generation
    pub cap: Duration,
    pub start: Instant,
    pub shard: u64,
    pub shards: u64,
}

impl Cfg {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// quick / thorough case count
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let f = std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        ((if self.thorough() { thorough } else { quick }) as f64 * f) as u64
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stage: String,
    pub case: u64,
    pub what: String,
    pub replay: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub rules: Vec<String>,
    pub skipped: BTreeMap<String, u64>,
    /// listed defects of the code that this run observed again
    pub known: Vec<String>,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        for (k, v) in o.skipped {
            *self.skipped.entry(k).or_insert(0) += v;
        }
        self.violations.extend(o.violations);
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        for k in o.known {
            if !self.known.contains(&k) {
                self.known.push(k);
            }
        }
        for r in o.rules {
            if !self.rules.contains(&r) {
                self.rules.push(r);
            }
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub rng: Rng,
    pub st: &'a mut Stats,
    pub worker: usize,
    stage: &'a str,
    cfg: &'a Cfg,
    input: String,
}

impl<'a> Case<'a> {
    /// Remember the input of this case, so that a crash can be attributed and replayed.
    pub fn input(&mut self, text: impl Into<String>) {
        self.input = text.into();
        CUR.with(|c| *c.borrow_mut() = self.input.clone());
        let p = format!("{}/cur.{}", self.cfg.work, self.worker);
        let _ = std::fs::write(p, format!("stage={} case={}\n{}", self.stage, self.idx, self.input));
    }
    pub fn distinct(&mut self, key: &str) {
        self.st.distinct.insert(hash_bytes(key.as_bytes()));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let mut t = s();
            if t.len() > 3000 {
                let mut k = 3000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            self.st.samples.push(t);
        }
    }
    pub fn skip(&mut self, why: &str) {
        *self.st.skipped.entry(why.to_string()).or_insert(0) += 1;
    }
    pub fn violation(&mut self, what: impl Into<String>) {
        let v = Violation {
            stage: self.stage.to_string(),
            case: self.idx,
            what: what.into(),
            replay: self.input.clone(),
        };
        self.st.violations.push(v);
    }
    pub fn work(&self) -> &str {
        &self.cfg.work
    }
}

thread_local! {
    static CUR: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if let Ok(mut g) = PANIC_ANY.lock() {
            *g = format!("{msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// Run this shard's share of the `n` cases of `stage`. An escaping panic is a violation.
pub fn run_cases(cfg: &Cfg, stage: &str, n: u64, f: impl Fn(&mut Case)) -> Stats {
    // debugging aid: a single stage
    let n = match std::env::var("VH_ONLY") {
        Ok(o) if o != stage => 0,
        _ => n,
    };
    let mut st = Stats::default();
    let stage_seed = mix(cfg.seed, hash_bytes(stage.as_bytes()));
    // every stage gets its own share of the time cap, so that a slow machine starves no stage
    for i in 0..n {
        if cfg.start.elapsed() > cfg.cap {
            st.count(&format!("stage cut short by the time cap[{stage}]"), 1);
            break;
        }
        if i % cfg.shards != cfg.shard || cfg.only.is_some_and(|o| o != i) {
            continue;
        }
        BEAT.store(cfg.start.elapsed().as_secs() + 1, Ordering::Relaxed);
        let mut case = Case {
            idx: i,
            rng: Rng::new(mix(stage_seed, i)),
            st: &mut st,
            worker: cfg.shard as usize,
            stage,
            cfg,
            input: String::new(),
        };
        case.st.evals += 1;
        CUR.with(|c| c.borrow_mut().clear());
        let r = guard(|| f(&mut case));
        BEAT.store(0, Ordering::Relaxed);
        if let Err(m) = r {
            if m.contains("harness-env:") {
                eprintln!("HARNESS-ERROR {m}");
                std::process::exit(3);
            }
            let replay = CUR.with(|c| c.borrow().clone());
            st.violations.push(Violation { stage: stage.to_string(), case: i, what: format!("panic: {m}"), replay });
        }
        if st.violations.len() >= 3 {
            break;
        }
    }
    let ran = st.evals;
    st.count(&format!("cases[{stage}]"), ran);
    st
}

static BEAT: AtomicU64 = AtomicU64::new(0);

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

impl Stats {
    fn dump(&self) -> String {
        let mut o = format!("evals\t{}\n", self.evals);
        for d in &self.distinct {
            o.push_str(&format!("d\t{d}\n"));
        }
        for (t, m) in [("c", &self.counters), ("m", &self.maxima), ("s", &self.skipped)] {
            for (k, v) in m {
                o.push_str(&format!("{t}\t{}\t{v}\n", esc(k)));
            }
        }
        for v in &self.violations {
            o.push_str(&format!("v\t{}\t{}\t{}\t{}\n", esc(&v.stage), v.case, esc(&v.what), esc(&v.replay)));
        }
        for s in &self.samples {
            o.push_str(&format!("x\t{}\n", esc(s)));
        }
        for s in &self.rules {
            o.push_str(&format!("r\t{}\n", esc(s)));
        }
        for s in &self.known {
            o.push_str(&format!("k\t{}\n", esc(s)));
        }
        o.push_str("end\n");
        o
    }
    fn load(t: &str) -> Option<Stats> {
        let mut s = Stats::default();
        let mut end = false;
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            let t = |i: usize| unesc(f.get(i).copied().unwrap_or(""));
            match f[0] {
                "evals" => s.evals = n(1),
                "d" => {
                    s.distinct.insert(n(1));
                }
                "c" => {
                    s.counters.insert(t(1), n(2));
                }
                "m" => {
                    s.maxima.insert(t(1), n(2));
                }
                "s" => {
                    s.skipped.insert(t(1), n(2));
                }
                "v" => s.violations.push(Violation { stage: t(1), case: n(2), what: t(3), replay: t(4) }),
                "x" => s.samples.push(t(1)),
                "r" => s.rules.push(t(1)),
                "k" => s.known.push(t(1)),
                "end" => end = true,
                _ => {}
            }
        }
        end.then_some(s)
    }
}

/// Parent: run the check as `shards` child processes and merge what they observed. A child
/// that dies from a signal is a violation attributed to the case it was running.
pub fn orchestrate(cfg: &Cfg) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut kids = vec![];
    for k in 0..cfg.shards {
        let c = std::process::Command::new(&exe)
            .args(&args)
            .env("VH_SHARD", format!("{k}"))
            .env("VH_SHARDS", format!("{}", cfg.shards))
            .spawn()
            .unwrap_or_else(|e| {
                eprintln!("HARNESS-ERROR spawn: {e}");
                std::process::exit(3)
            });
        kids.push(c);
    }
    let mut st = Stats::default();
    let mut broken = false;
    for (k, mut c) in kids.into_iter().enumerate() {
        let s = c.wait().unwrap();
        let dump = std::fs::read_to_string(format!("{}/stats.{k}", cfg.work)).ok().and_then(|t| Stats::load(&t));
        match dump {
            Some(d) => st.merge(d),
            None if s.code() == Some(3) => broken = true,
            None => {
                let cur = std::fs::read_to_string(format!("{}/cur.{k}", cfg.work)).unwrap_or_default();
                let case = cur.lines().next().and_then(|l| l.split("case=").nth(1)).and_then(|x| x.trim().parse().ok());
                let how = match s.signal() {
                    Some(n) => format!("killed by signal {n}"),
                    None => format!("ended with status {:?}", s.code()),
                };
                st.violations.push(Violation {
                    stage: "crash".into(),
                    case: case.unwrap_or(u64::MAX),
                    what: format!("the process exercising the code was {how}"),
                    replay: cur,
                });
            }
        }
    }
    if broken && st.violations.is_empty() {
        std::process::exit(3);
    }
    report(cfg, st)
}

/// Child: hand the observations to the parent.
pub fn finish(cfg: &Cfg, st: Stats) -> ! {
    let _ = std::fs::write(format!("{}/stats.{}", cfg.work, cfg.shard), st.dump());
    std::process::exit(0)
}

/// Run the body of a check on a big stack, under a watchdog for hanging cases.
pub fn run_child(cfg: &Cfg, body: impl FnOnce(&Cfg) -> Stats + Send) -> ! {
    std::thread::scope(|s| {
        let limit = if cfg.thorough() { 300 } else { 100 };
        s.spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let (t, now) = (BEAT.load(Ordering::Relaxed), cfg.start.elapsed().as_secs() + 1);
                if t != 0 && now > t + limit {
                    let mut st = Stats::default();
                    let cur = std::fs::read_to_string(format!("{}/cur.{}", cfg.work, cfg.shard)).unwrap_or_default();
                    st.violations.push(Violation {
                        stage: "hang".into(),
                        case: cur.lines().next().and_then(|l| l.split("case=").nth(1)).and_then(|x| x.trim().parse().ok()).unwrap_or(u64::MAX),
                        what: format!("case did not finish within {limit} s"),
                        replay: cur,
                    });
                    finish(cfg, st);
                }
            }
        });
        let h = std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || finish(cfg, body(cfg))).unwrap();
        if h.join().is_err() {
            eprintln!("HARNESS-ERROR {}", PANIC_ANY.lock().unwrap());
        }
        std::process::exit(3)
    })
}

static PANIC_ANY: Mutex<String> = Mutex::new(String::new());

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Write evidence, print verdict lines and exit.
fn report(cfg: &Cfg, st: Stats) -> ! {
    let mut lines = vec![];
    let mut sorted = st.violations.clone();
    sorted.sort_by(|a, b| (a.stage.as_str(), a.case).cmp(&(b.stage.as_str(), b.case)));
    let mut sigs = HashSet::new();
    let dir = format!("{}/replay", cfg.evidence);
    let _ = std::fs::create_dir_all(&dir);
    for v in &sorted {
        if lines.len() >= 5 || !sigs.insert(v.what.chars().take(60).collect::<String>()) {
            continue;
        }
        let p = format!("{dir}/{}-{}-{}.txt", cfg.prop, v.stage, v.case);
        let body = format!(
            "property {}\nstage {}\ncase {}\nseed {}\ntier {}\nwhat {}\nreplay: VERIF_SEED={} ./check.sh {} {} {}\n---\n{}\n",
            cfg.prop, v.stage, v.case, cfg.seed, cfg.tier, v.what, cfg.seed, cfg.prop, cfg.tier, v.case, v.replay
        );
        let _ = std::fs::write(&p, body);
        let mut w: String = v.what.replace('\n', " | ");
        if w.len() > 600 {
            let mut k = 600;
            while !w.is_char_boundary(k) {
                k -= 1;
            }
            w.truncate(k);
        }
        lines.push(format!("VIOLATION property={} replay={p} stage={} case={} {w}", cfg.prop, v.stage, v.case));
    }
    let samples: Vec<String> = st.samples.iter().map(|s| jstr(s)).collect();
    let map = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "))
    };
    let level = std::env::var("VH_LEVEL").unwrap_or("exploration".into());
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"observed\": {}, \"maxima\": {}, \"skipped\": {}, \"violations\": {}, \"samples\": [{}]}}, \"wall_s\": {:.2}}}\n",
        jstr(&cfg.prop), jstr(&cfg.tier), cfg.seed, jstr(&level), st.evals, st.distinct.len(),
        jstr(&st.rules.join(" ")), map(&st.counters), map(&st.maxima), map(&st.skipped),
        st.violations.len(), samples.join(", "), cfg.start.elapsed().as_secs_f64()
    );
    let p = format!("{}/{}.json", cfg.evidence, cfg.prop);
    let _ = std::fs::write(&p, ev);
    println!(
        "{}: {} evaluations, {} distinct, {} violations, {:.1} s",
        cfg.prop, st.evals, st.distinct.len(), st.violations.len(), cfg.start.elapsed().as_secs_f64()
    );
    for k in &st.known {
        println!("KNOWN-FINDING: property={} {k}", cfg.prop);
    }
    for l in &lines {
        println!("{l}");
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if lines.is_empty() { 0 } else { 1 });
}
