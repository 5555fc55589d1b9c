//! C14 and C15: scripts of runtime-library calls run by `rthost` (real runtime, guarded
//! allocator, planned I/O faults) or `rthost_tsan` (ThreadSanitizer); the recorded event log
//! is checked here against a model.
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Want {
    Any,
    Eq(String),
    Tag,
    Alloc(usize),
    Free,
    /// bytes the call has to deliver to standard output, and whether a newline follows
    Out(Vec<u8>, bool),
    Float(f64),
    Line,
    /// new contents, contents must equal; refcount at least
    Bytes(Vec<u8>),
    Hash(u64, u64),
    Slice(bool),
    Stdin(Vec<u8>),
    Poison,
    Mem,
}

#[derive(Default)]
struct Script {
    /// (thread, op, expectation); thread 17 = epilogue
    ops: Vec<(usize, String, Want)>,
    /// the last operation has to abort the process; reports on stderr have to contain this
    aborts: Option<&'static str>,
    stdin: Vec<u8>,
}

impl Script {
    fn op(&mut self, t: usize, s: impl Into<String>, w: Want) {
        self.ops.push((t, s.into(), w));
    }
    fn text(&self) -> String {
        let mut o = String::new();
        for t in 0..=17 {
            let mut first = true;
            for (x, s, _) in &self.ops {
                if *x != t {
                    continue;
                }
                if first && t > 0 {
                    o.push_str(&if t == 17 { "Z\n".to_string() } else { format!("T {t}\n") });
                }
                first = false;
                o.push_str(s);
                o.push('\n');
            }
        }
        o
    }
}

struct Ran {
    log: String,
    stderr: String,
    code: Option<i32>,
    signal: Option<i32>,
    timed_out: bool,
}

fn exec(work: &str, tag: &str, host: &str, script: &str, guard: bool) -> Ran {
    use std::os::unix::process::ExitStatusExt;
    let (sp, lp, ep) = (format!("{work}/{tag}.s"), format!("{work}/{tag}.log"), format!("{work}/{tag}.err"));
    std::fs::write(&sp, script).unwrap_or_else(|e| panic!("harness-env: {e}"));
    let _ = std::fs::remove_file(&lp);
    let mut c = Command::new(format!("{}/{host}", std::env::var("VH_WORK").unwrap_or_else(|_| "/verif/.work".into())));
    c.args([&sp, &lp])
        .env_remove("VH_GUARD")
        .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 history_size=4 report_signal_unsafe=0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::from(std::fs::File::create(&ep).unwrap_or_else(|e| panic!("harness-env: {e}"))));
    if guard {
        c.env("VH_GUARD", "1");
    }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("harness-env: {host}: {e}"));
    let t0 = Instant::now();
    let mut timed_out = false;
    let mut nap = 200;
    let s = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(60) {
            timed_out = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(4000);
    };
    Ran {
        log: std::fs::read(&lp).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default(),
        stderr: std::fs::read(&ep).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default(),
        code: s.code(),
        signal: s.signal(),
        timed_out,
    }
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return ".".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "." {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// Check a recorded log. Returns the first deviation.
fn check(sc: &Script, r: &Ran, c: &mut Case) -> Result<(), String> {
    if r.timed_out {
        return Err("the calls did not finish within 60 s".into());
    }
    let mut per: BTreeMap<usize, Vec<&str>> = BTreeMap::new();
    let mut end = false;
    for l in r.log.lines() {
        if let Some(f) = l.split("FAULT ").nth(1) {
            return Err(format!("memory monitor: {f}"));
        }
        if let Some(f) = l.strip_prefix("SIGNAL ") {
            return Err(format!("a runtime call died from signal {f} (after: {})", r.log.lines().rev().nth(1).unwrap_or("")));
        }
        if l.starts_with("END ") {
            end = true;
            for kv in l[4..].split(' ') {
                if let Some((k, v)) = kv.split_once('=') {
                    c.st.count(&format!("runtime {k}"), v.parse().unwrap_or(0));
                }
            }
            continue;
        }
        let Some((t, rest)) = l.split_once(' ') else { continue };
        if let Ok(t) = t.parse::<usize>() {
            per.entry(t).or_default().push(rest);
        }
    }
    let aborted = r.signal == Some(6);
    match sc.aborts {
        Some(m) => {
            if end || !aborted {
                return Err(format!("the call has to end the program but did not (status {:?}/{:?})", r.code, r.signal));
            }
            let last = r.log.lines().last().unwrap_or("");
            if !m.is_empty() && !String::from_utf8_lossy(&unhex(last.split(" err ").nth(1).unwrap_or("."))).contains(m) {
                return Err(format!("the program was ended without the report '{m}': {last}"));
            }
        }
        None => {
            if !end {
                return Err(format!(
                    "the program was ended (status {:?}, signal {:?}) after: {}",
                    r.code,
                    r.signal,
                    r.log.lines().last().unwrap_or("")
                ));
            }
        }
    }
    let mut tags: BTreeMap<usize, Vec<i32>> = BTreeMap::new();
    let mut seqs: Vec<(u64, usize)> = vec![];
    // allocation intervals: (address, size, from, to)
    let mut spans: Vec<(u64, u64, u64, u64)> = vec![];
    let mut open: BTreeMap<u64, usize> = BTreeMap::new();
    let mut rc: BTreeMap<usize, u32> = BTreeMap::new();
    let mut stream: Vec<u8> = vec![];
    let mut spos = 0usize;
    let mut pending: Vec<u8> = vec![];
    let mut mems: Vec<u64> = vec![];
    for t in 0..=17usize {
        let ops: Vec<_> = sc.ops.iter().filter(|o| o.0 == t).collect();
        let got = per.remove(&t).unwrap_or_default();
        if got.len() != ops.len() && !(sc.aborts.is_some() && ops.iter().any(|o| std::ptr::eq(*o, sc.ops.last().unwrap()))) {
            return Err(format!("thread {t} ran {} of {} operations", got.len(), ops.len()));
        }
        for (k, (_, op, want)) in ops.iter().enumerate() {
            let Some(g) = got.get(k) else { break };
            if sc.aborts.is_some() && std::ptr::eq(ops[k], sc.ops.last().unwrap()) {
                break;
            }
            let name = op.split(' ').next().unwrap();
            if !g.starts_with(name) {
                return Err(format!("log out of step: {op} / {g}"));
            }
            let res = g[name.len()..].trim_start();
            let bad = |why: String| Err(format!("{op} on thread {t}: {why} (log: {})", &g[..g.len().min(300)]));
            c.st.count(&format!("op[{name}]"), 1);
            match want {
                Want::Any => {}
                Want::Eq(e) => {
                    if res != e {
                        return bad(format!("gave '{res}', the model gives '{e}'"));
                    }
                }
                Want::Tag => {
                    let v: i32 = res.parse().unwrap_or(i32::MIN);
                    let seen = tags.entry(t).or_default();
                    if seen.contains(&v) {
                        return bad(format!("tag {v} was drawn before on this thread"));
                    }
                    seen.push(v);
                }
                Want::Alloc(z) => {
                    let f: Vec<&str> = res.split(' ').collect();
                    let q: u64 = f[0].parse().unwrap_or(0);
                    let a = u64::from_str_radix(f.get(1).unwrap_or(&"0"), 16).unwrap_or(0);
                    seqs.push((q, t));
                    if *z == 0 {
                        if a != 0 {
                            return bad("a request for no memory has to give null".into());
                        }
                    } else {
                        if a == 0 || a % 8 != 0 {
                            return bad(format!("address {a:x} is null or not 8-aligned"));
                        }
                        open.insert(a, spans.len());
                        spans.push((a, *z as u64, q, u64::MAX));
                    }
                }
                Want::Free => {
                    let f: Vec<&str> = res.split(' ').collect();
                    let q: u64 = f[0].parse().unwrap_or(0);
                    seqs.push((q, t));
                    if f.get(2) != Some(&"ok") {
                        return bad("the object's contents were overwritten while it was live".into());
                    }
                    let a = u64::from_str_radix(f.get(1).unwrap_or(&"0"), 16).unwrap_or(0);
                    if let Some(i) = open.remove(&a) {
                        spans[i].3 = q;
                    }
                }
                Want::Out(payload, nl) => {
                    let mut out = vec![];
                    let (mut hard, mut soft) = (false, false);
                    for e in res.split(' ') {
                        if let Some(h) = e.strip_prefix("w:") {
                            out.extend(unhex(h));
                        } else if e.starts_with("we") || e == "wz" {
                            hard = true;
                        } else if e == "wi" {
                            soft = true;
                        }
                    }
                    let mut full = payload.clone();
                    if *nl {
                        full.push(b'\n');
                    }
                    let ok = if hard {
                        // a failing stream: a prefix, possibly followed by the newline
                        full.starts_with(&out) || (*nl && out.last() == Some(&b'\n') && payload.starts_with(&out[..out.len() - 1]))
                    } else {
                        out == full
                    };
                    c.st.count(if hard { "outputs with a failing stream" } else if soft { "outputs interrupted" } else { "outputs" }, 1);
                    if !ok {
                        return bad(format!("delivered {:?} instead of {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&full)));
                    }
                }
                Want::Float(x) => {
                    let out: Vec<u8> = res.split(' ').filter_map(|e| e.strip_prefix("w:")).flat_map(unhex).collect();
                    let s = String::from_utf8_lossy(&out).into_owned();
                    let Some(body) = s.strip_suffix('\n') else { return bad("no newline after the number".into()) };
                    let v: Result<f64, _> = body.parse();
                    let same = v.as_ref().is_ok_and(|v| v.to_bits() == x.to_bits() || (v.is_nan() && x.is_nan()));
                    if !same {
                        return bad(format!("printed '{body}', which does not denote {x:e}"));
                    }
                    let digits = |s: &str| {
                        let m = s.split(['e', 'E']).next().unwrap_or("");
                        let d: String = m.chars().filter(|c| c.is_ascii_digit()).collect();
                        d.trim_matches('0').len()
                    };
                    if x.is_finite() && digits(body) > digits(&format!("{x:e}")) {
                        return bad(format!("printed '{body}', longer than the shortest form of {x:e}"));
                    }
                }
                Want::Stdin(b) => {
                    stream = b.clone();
                    spos = 0;
                }
                Want::Line => {
                    let (ev, out) = match g.split_once(" = ") {
                        Some((a, b)) => (a, b),
                        None => return bad("no result".into()),
                    };
                    let mut why = None;
                    for e in ev.split(' ').skip(1) {
                        if pending.contains(&b'\n') {
                            return bad("reads on although a whole line is available".into());
                        }
                        if let Some(x) = e.strip_prefix("re") {
                            why = Some(Err(x.parse::<i32>().unwrap_or(0)));
                            c.st.count("reads failed", 1);
                        } else if e == "ri" {
                            c.st.count("reads interrupted", 1);
                        } else if let Some(x) = e.strip_prefix('r') {
                            let n: usize = x.parse().unwrap_or(0);
                            if n == 0 {
                                why = Some(Ok(()));
                            } else {
                                pending.extend(&stream[spos..(spos + n).min(stream.len())]);
                                spos = (spos + n).min(stream.len());
                                c.st.count("read chunks", 1);
                            }
                        }
                    }
                    let line = |mut b: Vec<u8>, cr: bool| {
                        if cr && b.last() == Some(&b'\r') {
                            b.pop();
                        }
                        match String::from_utf8(b) {
                            Ok(b) => format!("0 0 rc1,0,{} {} -", b.len(), hex(b.as_bytes())),
                            Err(_) => "2 0 - -".to_string(),
                        }
                    };
                    let exp = if let Some(i) = pending.iter().position(|b| *b == b'\n') {
                        let mut l: Vec<u8> = pending.drain(..=i).collect();
                        l.pop();
                        line(l, true)
                    } else {
                        match why {
                            Some(Err(code)) => {
                                pending.clear();
                                let o: Vec<&str> = out.split(' ').collect();
                                if o.len() != 5 || o[0] != "3" || o[1] != code.to_string() || o[2] != "-" || unhex(o[4]).is_empty() {
                                    return bad(format!("a failing read (code {code}) has to be reported as such"));
                                }
                                out.to_string()
                            }
                            Some(Ok(())) if pending.is_empty() => "1 0 - -".into(),
                            Some(Ok(())) => line(std::mem::take(&mut pending), false),
                            None => return bad("returned without a line, an end of file or an error".into()),
                        }
                    };
                    c.st.count(&format!("line result tag {}", &out[..1]), 1);
                    if out != exp {
                        return bad(format!("the stream defines '{}'", &exp[..exp.len().min(300)]));
                    }
                }
                Want::Bytes(b) => {
                    let f: Vec<&str> = res.split(' ').collect();
                    let h: Vec<&str> = f[0].trim_start_matches("rc").split(',').collect();
                    let cnt: u32 = h[0].parse().unwrap_or(0);
                    let sl: usize = op.split(' ').nth(1).unwrap().parse().unwrap();
                    let min = *rc.entry(sl).or_insert(1);
                    if cnt < min || h.get(1) != Some(&"0") {
                        return bad(format!("header {} (at least {min} references expected)", f[0]));
                    }
                    if h.get(2).and_then(|x| x.parse::<usize>().ok()) != Some(b.len()) || unhex(f.get(1).unwrap_or(&".")) != *b {
                        return bad(format!("contents are not {}", hex(b)));
                    }
                }
                Want::Hash(n, h) => {
                    if res != format!("{n} {h:x}") {
                        return bad(format!("contents differ from the model ({n} {h:x})"));
                    }
                }
                Want::Slice(nonempty) => {
                    let f: Vec<&str> = res.split(' ').collect();
                    let src: usize = op.split(' ').nth(2).unwrap().parse().unwrap();
                    let now: u32 = f.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                    let was = rc.entry(src).or_insert(1);
                    let shared = f[0] == "1";
                    if shared && *nonempty && now < *was + 1 {
                        return bad(format!("shares the buffer of an object held {now} times (was {was})"));
                    }
                    *was = now;
                    c.st.count("slices", 1);
                }
                Want::Poison => {
                    if res != "poisoned" {
                        return bad("freed memory was reused or changed while in quarantine".into());
                    }
                }
                Want::Mem => mems.push(res.parse().unwrap_or(0)),
            }
        }
    }
    // live objects never overlap
    let mut by: Vec<_> = spans.iter().filter(|s| s.1 > 0).collect();
    by.sort();
    let longest = by.iter().map(|s| s.1).max().unwrap_or(0);
    for i in 0..by.len() {
        for j in i + 1..by.len() {
            let (a, b) = (by[i], by[j]);
            if b.0 >= a.0 + longest.max(a.1) {
                break;
            }
            // a's life and b's life overlap for sure
            if b.0 < a.0 + a.1 && a.2 < b.3 && b.2 < a.3 {
                return Err(format!("two live objects overlap: {a:x?} and {b:x?}"));
            }
        }
    }
    if mems.len() == 2 && mems[1] > mems[0] {
        return Err(format!("{} objects of the runtime stayed allocated after the threads ended", mems[1] - mems[0]));
    }
    seqs.sort();
    let order: Vec<u8> = seqs.iter().map(|s| s.1 as u8).collect();
    if order.iter().any(|t| *t != order[0]) {
        c.st.count("switches between threads", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        c.distinct(&format!("{order:?}"));
    } else {
        c.distinct(&sc.text());
    }
    Ok(())
}

fn run_script(c: &mut Case, sc: &Script, host: &str, guard: bool) {
    let text = sc.text();
    c.input(format!("host {host} guard {guard}\n{text}"));
    let work = c.work().to_string();
    let tag = format!("w{}", c.worker);
    let mut r = exec(&work, &tag, host, &text, guard);
    if host.ends_with("tsan") {
        // the sanitizer's own start-up can fail under an unlucky address layout; a fault of
        // the runtime shows again (and in the same stage without the sanitizer)
        for _ in 0..3 {
            if !(r.log.is_empty() && r.stderr.is_empty()) {
                break;
            }
            r = exec(&work, &tag, host, &text, guard);
        }
        if let Some(i) = r.stderr.find("WARNING: ThreadSanitizer") {
            c.violation(format!("ThreadSanitizer: {}", r.stderr[i..].lines().take(12).collect::<Vec<_>>().join(" | ")));
            return;
        }
        if r.stderr.contains("FATAL: ThreadSanitizer") {
            panic!("harness-env: {}", r.stderr.lines().next().unwrap_or(""));
        }
        c.st.count("runs under ThreadSanitizer", 1);
    } else if guard {
        c.st.count("runs under the guarded allocator", 1);
    }
    if let Err(e) = check(sc, &r, c) {
        c.violation(e);
    }
    c.sample(|| format!("{text}---\n{}", r.log));
}

// ---- C14 ---------------------------------------------------------------------------

type Ev = BTreeMap<i32, (i32, i64, i64)>;

fn ability(r: &mut Rng) -> i32 {
    match r.below(6) {
        0 => r.range(-4, 4) as i32,
        1 => *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 0, -1, 1, 0x7fff, -0x8000, 0x10000]),
        2 => r.range(0, 40) as i32,
        3 => (r.u64() as i32) & !0xffff,
        _ => r.u64() as i32,
    }
}

struct Gen {
    evs: Vec<(usize, Ev)>,
    objs: Vec<usize>,
    next: usize,
    hi: usize,
}

fn ev_ops(s: &mut Script, r: &mut Rng, t: usize, g: &mut Gen, shared: &[(usize, Ev)], n: usize, asan: bool) {
    for _ in 0..n {
        match r.below(12) {
            0 => s.op(t, "tag", Want::Tag),
            1 => s.op(t, "y", Want::Any),
            2 if g.next < g.hi => {
                s.op(t, format!("empty {}", g.next), Want::Any);
                g.evs.push((g.next, Ev::new()));
                g.next += 1;
            }
            3..=5 if g.next < g.hi && (!g.evs.is_empty() || !shared.is_empty()) => {
                let k = r.below(g.evs.len() + shared.len());
                let (src, mut m) = if k < g.evs.len() { g.evs[k].clone() } else { shared[k - g.evs.len()].clone() };
                let ab = if !m.is_empty() && r.chance(30) { *m.keys().nth(r.below(m.len())).unwrap() } else { ability(r) };
                let old = m.get(&ab).copied();
                let mut v = (r.u64() as i32, (r.u64() >> r.below(64)) as i64 & i64::MAX, (r.u64() >> r.below(64)) as i64 & i64::MAX);
                // an extension that agrees with the current one in some fields
                if let Some(o) = old {
                    if r.chance(50) {
                        v.0 = o.0;
                    }
                    if r.chance(30) {
                        v.1 = o.1;
                    }
                    if r.chance(30) {
                        v.2 = o.2;
                    }
                }
                s.op(t, format!("ext {} {src} {ab} {} {} {}", g.next, v.0, v.1, v.2), Want::Any);
                m.insert(ab, v);
                g.evs.push((g.next, m));
                g.next += 1;
            }
            6..=8 if !g.evs.is_empty() || !shared.is_empty() => {
                let k = r.below(g.evs.len() + shared.len());
                let (src, m) = if k < g.evs.len() { &g.evs[k] } else { &shared[k - g.evs.len()] };
                if !m.is_empty() {
                    let (ab, v) = m.iter().nth(r.below(m.len())).unwrap();
                    s.op(t, format!("look {src} {ab}"), Want::Eq(format!("{} {:x} {:x}", v.0, v.1, v.2)));
                }
            }
            9 if g.next < g.hi => {
                let z = match r.below(8) {
                    0 => 0,
                    1 => 1 + r.below(8),
                    2 => 4096 - r.below(9),
                    3 if !asan => 1 << r.below(17),
                    _ => 1 + r.below(200),
                };
                s.op(t, format!("alloc {} {z}", g.next), Want::Alloc(z));
                if z > 0 {
                    g.objs.push(g.next);
                }
                g.next += 1;
            }
            10 | 11 if !g.objs.is_empty() => {
                let k = r.below(g.objs.len());
                let o = g.objs.swap_remove(k);
                s.op(t, format!("free {o}"), Want::Free);
            }
            _ => {}
        }
    }
}

fn history(r: &mut Rng, threads: usize, len: usize) -> Script {
    let mut s = Script::default();
    s.op(0, "init", Want::Any);
    if r.chance(50) {
        s.op(0, "init", Want::Any);
    }
    let mut g = Gen { evs: vec![], objs: vec![], next: 0, hi: 255 };
    s.op(0, "empty 0", Want::Any);
    g.evs.push((0, Ev::new()));
    g.next = 1;
    let n = r.below(len + 1);
    ev_ops(&mut s, r, 0, &mut g, &[], n, false);
    let shared = g.evs.clone();
    for t in 1..=threads {
        let mut h = Gen { evs: vec![], objs: vec![], next: 256 * t, hi: 256 * t + 255 };
        if r.chance(40) {
            s.op(t, "init", Want::Any);
        }
        let n = 1 + r.below(len);
        ev_ops(&mut s, r, t, &mut h, &shared, n, false);
        // nothing the threads did changed what they were given
        for (src, m) in shared.iter().chain(h.evs.iter()) {
            if r.chance(30) {
                for (ab, v) in m {
                    s.op(t, format!("look {src} {ab}"), Want::Eq(format!("{} {:x} {:x}", v.0, v.1, v.2)));
                }
            }
        }
        for o in h.objs {
            if r.chance(80) {
                s.op(t, format!("free {o}"), Want::Free);
            }
        }
        g.evs.extend(h.evs);
    }
    for (src, m) in &g.evs {
        for (ab, v) in m {
            s.op(17, format!("look {src} {ab}"), Want::Eq(format!("{} {:x} {:x}", v.0, v.1, v.2)));
        }
    }
    for o in g.objs {
        s.op(17, format!("free {o}"), Want::Free);
    }
    s.op(17, "free0 0", Want::Any);
    s
}

pub fn check_runtime(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("An evaluation is one process running a script of runtime calls on 1 to 16 threads; every call's result is in a recorded log that is checked offline against a persistent-map model of handler evidence, an interval model of allocations and a per-thread set of drawn tags. Distinct counts distinct cross-thread event orders (threaded runs) and distinct scripts (others).".into());
    st.merge(run_cases(cfg, "single", cfg.n(1200, 12000), |c| {
        let n = 10 + c.rng.below(150);
        let s = history(&mut c.rng.clone(), 0, n);
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "threads", cfg.n(2000, 20000), |c| {
        let mut r = c.rng.clone();
        let t = 2 + r.below(7);
        let s = history(&mut r, t, 80);
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "tsan", cfg.n(400, 4000), |c| {
        let mut r = c.rng.clone();
        let t = 2 + r.below(7);
        let s = history(&mut r, t, 80);
        run_script(c, &s, "rthost_tsan", false);
    }));
    // the first use of the runtime races on every thread
    for (stage, host, n) in [("init-race", "rthost", cfg.n(1000, 8000)), ("init-race-tsan", "rthost_tsan", cfg.n(80, 800))] {
        st.merge(run_cases(cfg, stage, n, |c| {
            let mut r = c.rng.clone();
            let mut s = Script::default();
            s.op(0, format!("delay {}", *r.pick(&[0, 0, 20, 200, 2000])), Want::Any);
            for t in 1..=2 + r.below(15) {
                if r.chance(50) {
                    s.op(t, format!("spin {}", r.below(2000)), Want::Any);
                }
                s.op(t, "init", Want::Any);
                for k in 0..1 + r.below(20) {
                    s.op(t, "tag", Want::Tag);
                    if k % 4 == 0 {
                        s.op(t, format!("alloc {} 8", 256 * t + k), Want::Alloc(8));
                    }
                }
            }
            s.op(17, "tag", Want::Tag);
            run_script(c, &s, host, host == "rthost");
        }));
    }
    // threads that end give back what the runtime kept for them
    st.merge(run_cases(cfg, "thread-exit", cfg.n(60, 400), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "init", Want::Any);
        s.op(0, "tag", Want::Tag);
        s.op(0, "mem", Want::Mem);
        for t in 1..=1 + r.below(16) {
            for _ in 0..1 + r.below(30) {
                s.op(t, "tag", Want::Tag);
            }
        }
        s.op(17, "mem", Want::Mem);
        run_script(c, &s, "rthost", true);
    }));
    // requests that cannot be met end the program, they never return memory that is not there
    st.merge(run_cases(cfg, "exhaustion", cfg.n(64, 300), |c| {
        let mut r = c.rng.clone();
        let mut s = Script { aborts: Some(""), ..Default::default() };
        s.op(0, "init", Want::Any);
        if r.chance(50) {
            s.op(0, "asan", Want::Any);
        }
        for k in 0..r.below(5) {
            let z = 1 + r.below(100);
            s.op(0, format!("alloc {} {z}", 100 + k), Want::Alloc(z));
        }
        if r.chance(50) {
            let z = match r.below(4) {
                0 => u64::MAX - r.below(100) as u64,
                1 => (i64::MAX as u64) - r.below(100) as u64,
                2 => (1 << 63) + r.u64() % 1000,
                _ => 1 << (40 + r.below(23)),
            };
            s.op(0, format!("alloc 0 {z}"), Want::Any);
        } else {
            s.op(0, "oom 0", Want::Any);
            s.op(0, format!("alloc 0 {}", 1 + r.below(5000)), Want::Any);
        }
        run_script(c, &s, "rthost", true);
    }));
    // address-checking mode: silent on correct programs, freed memory stays poisoned in a
    // bounded quarantine
    st.merge(run_cases(cfg, "checked-clean", cfg.n(120, 1000), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "asan", Want::Any);
        s.op(0, "init", Want::Any);
        let mut g = Gen { evs: vec![], objs: vec![], next: 1, hi: 3000 };
        s.op(0, "empty 0", Want::Any);
        g.evs.push((0, Ev::new()));
        let big = r.chance(30);
        // slot, bytes freed since
        let mut freed: Vec<(usize, usize)> = vec![];
        let mut sizes: BTreeMap<usize, usize> = BTreeMap::new();
        for _ in 0..50 + r.below(400) {
            if r.chance(50) && g.next < g.hi {
                let z = if big { 1 + r.below(60_000) } else { 1 + r.below(300) };
                s.op(0, format!("alloc {} {z}", g.next), Want::Alloc(z));
                sizes.insert(g.next, z);
                g.objs.push(g.next);
                g.next += 1;
            } else if !g.objs.is_empty() {
                let k = r.below(g.objs.len());
                let o = g.objs.swap_remove(k);
                s.op(0, format!("free {o}"), Want::Free);
                let z = sizes[&o] + 64;
                freed.push((o, 0));
                for f in &mut freed {
                    f.1 += z;
                }
                freed.retain(|f| f.1 <= 900_000);
            }
            if !freed.is_empty() && r.chance(20) {
                s.op(0, format!("freed {}", r.pick(&freed).0), Want::Poison);
            }
        }
        ev_ops(&mut s, &mut r, 0, &mut g, &[], 30, true);
        run_script(c, &s, "rthost", true);
    }));
    // corruption next to an object, or freeing twice, is reported at the latest when freed
    st.merge(run_cases(cfg, "checked-corrupt", cfg.n(600, 4000), |c| {
        let mut r = c.rng.clone();
        let kind = r.below(3);
        let mut s = Script { aborts: Some(["left redzone", "right redzone", "TributeASan"][kind]), ..Default::default() };
        s.op(0, "asan", Want::Any);
        s.op(0, "init", Want::Any);
        let mut live = vec![];
        for k in 0..1 + r.below(20) {
            let z = 1 + r.below(100);
            s.op(0, format!("alloc {k} {z}"), Want::Alloc(z));
            live.push((k, z));
            if live.len() > 1 && r.chance(40) {
                let (o, _) = live.swap_remove(r.below(live.len()));
                s.op(0, format!("free {o}"), Want::Free);
            }
        }
        let (o, z) = *r.pick(&live);
        let zone = |r: &mut Rng| if r.chance(40) { *r.pick(&[0, 31]) } else { r.below(32) };
        match kind {
            0 => s.op(0, format!("poke {o} {} {}", -1 - zone(&mut r) as i64, 1 << r.below(8)), Want::Any),
            1 => s.op(0, format!("poke {o} {} {}", z + zone(&mut r), 1 << r.below(8)), Want::Any),
            _ => s.op(0, format!("free {o}"), Want::Free),
        }
        if kind < 2 {
            for k in 0..r.below(4) {
                s.op(0, format!("alloc {} 9", 900 + k), Want::Alloc(9));
            }
            s.op(0, format!("free {o}"), Want::Free);
        } else {
            // the host verifies the object's pattern before freeing; the second free follows
            s.op(0, format!("free {o}"), Want::Any);
        }
        run_script(c, &s, "rthost", true);
    }));
    st.merge(miri(cfg, "rtmiri", "evidence"));
    st
}

/// A history program under Miri: undefined behaviour, data races and weak-memory
/// effects over several schedules (one seed per case).
pub fn miri(cfg: &Cfg, krate: &str, what: &str) -> Stats {
    run_cases(cfg, "miri", cfg.n(8, 64), |c| {
        let seed = cfg.seed * 1000 + c.idx;
        c.input(format!("miri {what} seed {seed}"));
        let exe = std::env::var("VH_MIRI").unwrap_or_else(|_| panic!("harness-env: VH_MIRI not set"));
        let out = Command::new("bash")
            .args([&exe, krate, what, &format!("{seed}")])
            .output()
            .unwrap_or_else(|e| panic!("harness-env: {e}"));
        let so = String::from_utf8_lossy(&out.stdout).into_owned();
        let se = String::from_utf8_lossy(&out.stderr).into_owned();
        let done = so.lines().find_map(|l| l.strip_prefix("DONE "));
        if let (true, Some(d)) = (out.status.success(), done) {
            for kv in d.split(' ') {
                if let Some((k, v)) = kv.split_once('=') {
                    c.st.count(&format!("under Miri: {k}"), v.parse().unwrap_or(0));
                }
            }
            c.distinct(&format!("miri {seed} {d}"));
            return;
        }
        let err: String = se.lines().filter(|l| !l.trim().is_empty()).skip_while(|l| !l.contains("error") && !l.contains("panicked")).take(10).collect::<Vec<_>>().join(" | ");
        if err.contains("error: Undefined Behavior") || err.contains("panicked") || so.contains("MISMATCH") || err.contains("memory leaked") || err.contains("abnormal termination") || err.contains("deadlock") {
            let m = so.lines().find(|l| l.contains("MISMATCH")).unwrap_or("").to_string();
            c.violation(format!("Miri: {m} {err}"));
        } else {
            panic!("harness-env: miri: {} {}", so.lines().last().unwrap_or(""), se.chars().take(2000).collect::<String>());
        }
    })
}

// ---- C15 ---------------------------------------------------------------------------

fn some_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 4096,
        3 => 4095 + r.below(4),
        4 => r.below(3000),
        _ => r.below(40),
    };
    let narrow = r.chance(60);
    (0..n).map(|_| if narrow { *r.pick(b"ab\0\n\xff\x80") } else { r.u64() as u8 }).collect()
}

fn byte_script(r: &mut Rng, n: usize) -> Script {
    let mut s = Script::default();
    s.op(0, "init", Want::Any);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..2 + r.below(3) {
        let k = v.len();
        let b = some_bytes(r);
        if b.is_empty() && r.chance(50) {
            s.op(0, format!("nilbytes {k} {}", if r.chance(50) { 0 } else { 64 }), Want::Any);
        } else {
            s.op(0, format!("bytes {k} {}", hex(&b)), Want::Any);
        }
        v.push(b);
    }
    for _ in 0..n {
        let i = r.below(v.len());
        match r.below(8) {
            0 => s.op(0, format!("len {i}"), Want::Eq(format!("{}", v[i].len()))),
            1 if !v[i].is_empty() => {
                let k = if r.chance(40) { v[i].len() - 1 } else { r.below(v[i].len()) };
                s.op(0, format!("get {i} {k}"), Want::Eq(format!("{}", v[i][k])));
            }
            2 | 3 => {
                // mostly equal ranges of the two values, also ranges that stick out
                let j = if r.chance(50) { i } else { r.below(v.len()) };
                let (la, lb) = (v[i].len(), v[j].len());
                let mut a = r.below(la + 2) as u32;
                let mut b = if j == i && r.chance(50) { a } else { r.below(lb + 2) as u32 };
                let room = (la.saturating_sub(a as usize)).min(lb.saturating_sub(b as usize));
                let mut n = match r.below(5) {
                    0 => 0,
                    1 => room as u32,
                    2 => room as u32 + 1,
                    3 => *r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff]),
                    _ => r.below(room + 1) as u32,
                };
                if r.chance(6) {
                    a = *r.pick(&[u32::MAX, u32::MAX - 1, 0x8000_0000]);
                }
                if r.chance(4) {
                    b = u32::MAX;
                    n = n.max(1);
                }
                let get = |x: &Vec<u8>, o: u32| {
                    let e = o as u64 + n as u64;
                    if e > x.len() as u64 { None } else { Some(x[o as usize..e as usize].to_vec()) }
                };
                let e = match (get(&v[i], a), get(&v[j], b)) {
                    (Some(x), Some(y)) => x == y,
                    _ => false,
                };
                s.op(0, format!("eq {i} {a} {j} {b} {n}"), Want::Eq(format!("{}", e as u32)));
            }
            4 | 5 if v.iter().map(|x| x.len()).sum::<usize>() < 60_000 => {
                let j = if r.chance(25) { i } else { r.below(v.len()) };
                let k = v.len();
                s.op(0, format!("cat {k} {i} {j}"), Want::Any);
                let mut b = v[i].clone();
                b.extend(&v[j]);
                s.op(0, format!("dump {k}"), Want::Bytes(b.clone()));
                v.push(b);
            }
            6 => {
                let l = v[i].len();
                let a = match r.below(3) {
                    0 => 0,
                    1 => l,
                    _ => r.below(l + 1),
                };
                let b = match r.below(3) {
                    0 => a,
                    1 => l,
                    _ => a + r.below(l - a + 1),
                };
                let k = v.len();
                s.op(0, format!("slice {k} {i} {a} {b}"), Want::Slice(b > a));
                let x = v[i][a..b].to_vec();
                s.op(0, format!("dump {k}"), Want::Bytes(x.clone()));
                v.push(x);
            }
            _ => s.op(0, format!("dump {i}"), Want::Bytes(v[i].clone())),
        }
    }
    for (i, b) in v.iter().enumerate() {
        s.op(0, format!("dump {i}"), Want::Bytes(b.clone()));
        s.op(0, format!("len {i}"), Want::Eq(format!("{}", b.len())));
    }
    s
}

fn plan(r: &mut Rng, n: usize, hard: bool, write: bool) -> String {
    let style = r.below(4);
    (0..n)
        .map(|_| match (style, r.below(10)) {
            (0, _) => "-".to_string(),
            (1, 0..=6) => "s1".to_string(),
            (_, 0..=1) => "i".to_string(),
            (_, 2) => "i i i".to_string(),
            (_, 3..=5) => format!("s{}", 1 + r.below(9)),
            (_, 6) => format!("s{}", 1 + r.below(9000)),
            (_, 7) if hard => format!("e{}", r.pick(&[5, 9, 11, 28, 32])),
            (_, 8) if hard && !write => "E".to_string(),
            (_, 8) if hard => "E".to_string(),
            _ => "-".to_string(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(14695981039346656037u64, |h, x| (h ^ *x as u64).wrapping_mul(1099511628211))
}

pub fn check_bytes(cfg: &Cfg) -> Stats {
    let mut st = Stats::default();
    st.rules.push("An evaluation is one process running a script of byte, print and line-reading calls of the runtime library with every buffer against an inaccessible page and every standard-stream system call following a fault plan (short, interrupted, failing); the recorded calls, system calls and results are checked offline against a byte-string and stream model. Distinct counts distinct scripts.".into());
    st.merge(run_cases(cfg, "bytes", cfg.n(3000, 40000), |c| {
        let mut r = c.rng.clone();
        let n = 5 + r.below(80);
        let s = byte_script(&mut r, n);
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "bounds", cfg.n(240, 3000), |c| {
        let mut r = c.rng.clone();
        let mut s = byte_script(&mut r, 4);
        let b = some_bytes(&mut r);
        s.op(0, format!("bytes 4000 {}", hex(&b)), Want::Any);
        let l = b.len() as u32;
        let beyond = |r: &mut Rng| match r.below(6) {
            // in range once the high bits are dropped
            4 | 5 => (r.below(l as usize + 1) as u32 & 0xff) | 1 << (16 + r.below(16)),
            0 => l,
            1 => l + 1 + r.below(20) as u32,
            2 => u32::MAX,
            _ => 0x8000_0000u32 | r.u64() as u32,
        };
        if r.chance(50) {
            let k = beyond(&mut r);
            s.op(0, format!("get 4000 {k}"), Want::Any);
        } else {
            let (mut x, mut y) = (r.below(l as usize + 1) as u32, beyond(&mut r).max(l + 1));
            if r.chance(40) && l > 0 {
                // reversed bounds inside the value
                y = r.below(l as usize) as u32;
                x = y + 1 + r.below((l - y) as usize) as u32;
            }
            s.op(0, format!("slice 4001 4000 {x} {y}"), Want::Any);
        }
        s.aborts = Some("");
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "output", cfg.n(3000, 20000), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "init", Want::Any);
        for _ in 0..1 + r.below(12) {
            let hard = r.chance(20);
            let np = r.below(60);
            s.op(0, format!("wplan {}", plan(&mut r, np, hard, true)), Want::Any);
            for _ in 0..1 + r.below(3) {
                match r.below(8) {
                    0 => {
                        let v = match r.below(3) {
                            0 => r.range(-20, 20) as i32,
                            1 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, -1, 1_000_000_000, -1_000_000_000]),
                            _ => r.u64() as i32 >> r.below(32),
                        };
                        s.op(0, format!("pint {v}"), Want::Out(format!("{v}").into_bytes(), true));
                    }
                    1 => {
                        let v = match r.below(3) {
                            0 => r.below(20) as u32,
                            1 => *r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 4_000_000_000]),
                            _ => r.u64() as u32 >> r.below(32),
                        };
                        s.op(0, format!("pnat {v}"), Want::Out(format!("{v}").into_bytes(), true));
                    }
                    2 => s.op(0, "nl", Want::Out(vec![], true)),
                    k => {
                        let b = some_bytes(&mut r);
                        s.op(0, format!("bytes 0 {}", hex(&b)), Want::Any);
                        match k {
                            3 => s.op(0, "pbytes 0", Want::Out(b, false)),
                            4 => s.op(0, "bprint 0", Want::Out(b, false)),
                            5 => s.op(0, "iow 0 0", Want::Out(b, false)),
                            _ => s.op(0, "iow 0 1", Want::Out(b, true)),
                        }
                    }
                }
            }
        }
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "floats", cfg.n(160, 3000), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "init", Want::Any);
        for _ in 0..60 {
            let bits = match r.below(5) {
                0 => *r.pick(&[0u64, 1 << 63, 1, (1 << 63) | 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7fefffffffffffff, 0x10000000000000, 0xfffffffffffff]),
                1 => ((r.range(-1000, 1000) as f64) / 8.0).to_bits(),
                2 => ((r.range(-100000, 100000) as f64) / 1000.0).to_bits(),
                3 => 10f64.powi(r.range(-30, 30) as i32).to_bits(),
                _ => r.u64(),
            };
            let np = r.below(6);
            s.op(0, format!("wplan {}", plan(&mut r, np, false, true)), Want::Any);
            s.op(0, format!("pflt {bits:x}"), Want::Float(f64::from_bits(bits)));
        }
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "input", cfg.n(3000, 40000), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "init", Want::Any);
        let lines = 1 + r.below(14);
        let mut b: Vec<u8> = vec![];
        let dirty = r.chance(40);
        for i in 0..lines {
            let n = match r.below(10) {
                0 => 0,
                1 => 8190 + r.below(5),
                2 => 8 * 1024 * (1 + r.below(3)) - r.below(3),
                3 => r.below(20_000),
                _ => r.below(30),
            };
            for _ in 0..n {
                match r.below(30) {
                    0 => b.push(b'\r'),
                    1 => b.push(0),
                    2 => b.extend("é".as_bytes()),
                    3 => b.extend("한글".as_bytes()),
                    4 => b.extend("🦀".as_bytes()),
                    5 if dirty && r.chance(20) => b.push(0x80 | r.u64() as u8),
                    6 if dirty && r.chance(10) => b.extend(*r.pick(&[&b"\xed\xa0\x80"[..], b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82"])),
                    _ => b.push(b'a' + r.below(26) as u8),
                }
            }
            if i + 1 < lines || r.chance(60) {
                if r.chance(25) {
                    b.push(b'\r');
                }
                b.push(b'\n');
            }
        }
        s.op(0, format!("stdin {}", hex(&b)), Want::Stdin(b));
        let hard = r.chance(35);
        let np = r.below(120);
        s.op(0, format!("rplan {}", plan(&mut r, np, hard, false)), Want::Any);
        for k in 0..lines + 4 {
            s.op(0, format!("line {k}"), Want::Line);
        }
        run_script(c, &s, "rthost", true);
    }));
    st.merge(run_cases(cfg, "large", cfg.n(24, 200), |c| {
        let mut r = c.rng.clone();
        let mut s = Script::default();
        s.op(0, "init", Want::Any);
        let mut fill = |s: &mut Script, k: usize, n: usize| {
            let seed = r.u64() as u32 as u64;
            s.op(0, format!("fill {k} {n} {seed}"), Want::Any);
            let mut x = seed | 1;
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.push((x >> 56) as u8);
            }
            v
        };
        let a = fill(&mut s, 0, 100_000 + 77 * c.idx as usize);
        let b = fill(&mut s, 1, if c.idx % 6 == 0 { 5_000_000 } else { 65_536 });
        s.op(0, "cat 2 0 1", Want::Any);
        let mut ab = a.clone();
        ab.extend(&b);
        s.op(0, "hash 2", Want::Hash(ab.len() as u64, fnv(&ab)));
        s.op(0, format!("slice 3 2 {} {}", a.len(), ab.len()), Want::Slice(true));
        s.op(0, "hash 3", Want::Hash(b.len() as u64, fnv(&b)));
        s.op(0, format!("eq 3 0 1 0 {}", b.len()), Want::Eq("1".into()));
        s.op(0, format!("eq 2 0 0 0 {}", a.len() + 1), Want::Eq("0".into()));
        s.op(0, format!("get 2 {}", a.len()), Want::Eq(format!("{}", b[0])));
        let mut r = c.rng.clone();
        s.op(0, format!("wplan {}", plan(&mut r, 200, false, true)), Want::Any);
        s.op(0, "iow 0 1", Want::Out(a, true));
        run_script(c, &s, "rthost", true);
    }));
    st.merge(miri(cfg, "rtmiri", "bytes"));
    st
}
