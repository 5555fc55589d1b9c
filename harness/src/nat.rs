//! Link and run natively compiled programs under the allocation monitor.
use crate::interp::{Event, Observed};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct NatRun {
    pub obs: Observed,
    pub mem: Vec<String>,
    pub leaks: Vec<String>,
    pub allocs: u64,
    pub frees: u64,
    pub unsized_: u64,
    pub max_live: u64,
    pub stdout: Vec<u8>,
    pub timed_out: bool,
    pub code: Option<i32>,
}

pub fn assets() -> String {
    std::env::var("VH_WORK").unwrap_or_else(|_| "/verif/.work".into())
}

/// Link `obj` into a shared object that the host (driver + real runtime) loads.
pub fn link(work: &str, tag: &str, obj: &[u8]) -> Result<String, String> {
    let o = format!("{work}/{tag}.o");
    let exe = format!("{work}/{tag}.so");
    std::fs::write(&o, obj).map_err(|e| format!("harness-env: {e}"))?;
    let out = Command::new("ld.lld")
        .args(["--threads=1", "-O0", "-shared", "-Bsymbolic", "--wrap=__tribute_alloc", "--wrap=__tribute_dealloc"])
        .args(["-o", &exe, &o])
        .output()
        .unwrap_or_else(|e| panic!("harness-env: ld.lld: {e}"));
    if std::env::var_os("VH_KEEP").is_none() {
        let _ = std::fs::remove_file(&o);
    }
    if out.status.success() { Ok(exe) } else { Err(String::from_utf8_lossy(&out.stderr).into_owned()) }
}

pub fn run(work: &str, tag: &str, exe: &str, inputs: &[u64], mem: bool) -> NatRun {
    run_mode(work, tag, exe, inputs, if mem { Heap::Guarded } else { Heap::Plain })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Heap {
    Plain,
    /// every object on its own guarded page
    Guarded,
    /// nothing is ever given back
    Keep,
}

pub fn run_mode(work: &str, tag: &str, exe: &str, inputs: &[u64], heap: Heap) -> NatRun {
    let mem = heap == Heap::Guarded;
    let (stdin, fails) = crate::interp::stdin_of(inputs);
    let outp = format!("{work}/{tag}.out");
    let so = format!("{work}/{tag}.stdout");
    let si = format!("{work}/{tag}.stdin");
    let _ = std::fs::write(&si, stdin);
    let _ = std::fs::remove_file(&outp);
    let mut c = Command::new(format!("{}/host", assets()));
    c.env("VH_SO", exe).args(inputs.iter().map(|x| format!("{x:x}")))
        .env("VH_OUT", &outp)
        .stdin(Stdio::from(std::fs::File::open(&si).unwrap()))
        .stdout(Stdio::from(std::fs::File::create(&so).unwrap()))
        .stderr(Stdio::null());
    if fails {
        c.env("VH_RERR", "1");
    } else {
        c.env_remove("VH_RERR");
    }
    if heap == Heap::Keep {
        c.env("VH_KEEP", "1");
    } else {
        c.env_remove("VH_KEEP");
    }
    if mem {
        c.env("VH_MEM", "1");
    } else {
        c.env_remove("VH_MEM");
    }
    let mut ch = c.spawn().unwrap_or_else(|e| panic!("harness-env: run: {e}"));
    let t0 = Instant::now();
    let mut timed_out = false;
    let mut nap = 200;
    let status = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(60) {
            timed_out = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let text = std::fs::read_to_string(&outp).unwrap_or_default();
    let mut r = NatRun {
        obs: Observed { events: vec![], end: String::new() },
        mem: vec![],
        leaks: vec![],
        allocs: 0,
        frees: 0,
        unsized_: 0,
        max_live: 0,
        stdout: std::fs::read(&so).unwrap_or_default(),
        timed_out,
        code: status.code(),
    };
    for l in text.lines() {
        if let Some(m) = l.strip_prefix("MEM ") {
            if m.starts_with("leak") {
                r.leaks.push(m.to_string());
            } else {
                r.mem.push(m.to_string());
            }
        } else if let Some(s) = l.strip_prefix("STAT ") {
            for kv in s.split(' ') {
                if let Some((k, v)) = kv.split_once('=') {
                    let v: u64 = v.parse().unwrap_or(0);
                    match k {
                        "alloc" => r.allocs = v,
                        "free" => r.frees = v,
                        "unsized" => r.unsized_ = v,
                        "maxlive" => r.max_live = v,
                        _ => {}
                    }
                }
            }
        } else if let Some(e) = l.strip_prefix("END ") {
            r.obs.end = e.to_string();
        } else if let Some(h) = l.strip_prefix("out ") {
            crate::interp::push_out(&mut r.obs.events, h);
        } else if let Some((n, a)) = l.split_once(' ') {
            r.obs.events.push(Event { name: n.to_string(), args: vec![a.to_string()] });
        }
    }
    if r.obs.end.is_empty() {
        r.obs.end = format!("no end marker, status {status}");
    }
    r
}
