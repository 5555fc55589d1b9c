//! Emitted WebAssembly is valid and shows the same behaviour as the IR it came from.
use crate::c_native::{attach_known, reference};
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::interp::{self, Event};
use crate::pipeline;
use crate::progen::{self, Features, Gen};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use trunk_ir::parser::parse_module;
use trunk_ir::{IrContext, Module};

pub struct Node {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}

pub struct WasmRun {
    pub events: Vec<Event>,
    pub end: String,
    pub out: String,
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn start() -> Node {
    let js = concat!(env!("CARGO_MANIFEST_DIR"), "/../wasm/run.js");
    let mut child = Command::new("node")
        .arg("--stack-size=4000")
        .arg(js)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("harness-env: node: {e}"));
    let stdin = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Node { child, stdin, out }
}

/// Run a module on every input in the engine; `Err` is a rejection of the module.
pub fn execute(file: &str, inputs: &[Vec<u64>], short: bool) -> Result<Vec<WasmRun>, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(start);
        let ins: Vec<String> = inputs
            .iter()
            .map(|i| format!("[{}]", i.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(",")))
            .collect();
        let q = format!("{{\"file\":\"{file}\",\"short\":{short},\"inputs\":[{}]}}\n", ins.join(","));
        node.stdin.write_all(q.as_bytes()).and_then(|_| node.stdin.flush()).unwrap_or_else(|e| panic!("harness-env: node: {e}"));
        let mut runs: Vec<WasmRun> = vec![];
        let mut err = None;
        loop {
            let mut l = String::new();
            let k = node.out.read_line(&mut l).unwrap_or_else(|e| panic!("harness-env: node: {e}"));
            if k == 0 {
                let _ = node.child.kill();
                *n = None;
                panic!("harness-env: node ended");
            }
            let l = l.trim_end_matches('\n');
            if l == "DONE" {
                break;
            } else if l == "RUN" {
                runs.push(WasmRun { events: vec![], end: String::new(), out: String::new() });
            } else if let Some(e) = l.strip_prefix("ERR ") {
                err = Some(e.to_string());
            } else if let Some(e) = l.strip_prefix("END ") {
                runs.last_mut().unwrap().end = e.to_string();
            } else if let Some(e) = l.strip_prefix("OUT ") {
                runs.last_mut().unwrap().out = e.to_string();
            } else if let Some(h) = l.strip_prefix("out ") {
                interp::push_out(&mut runs.last_mut().unwrap().events, h);
            } else if let Some((a, b)) = l.split_once(' ') {
                runs.last_mut().unwrap().events.push(Event { name: a.into(), args: vec![b.into()] });
            }
        }
        match err {
            Some(e) => Err(e),
            None => Ok(runs),
        }
    })
}

pub fn compile(c: &mut Case, text: &str) -> Option<String> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let bytes = match pipeline::wasm_binary(&mut ctx, m) {
        Ok(b) => b,
        Err(e) => {
            c.violation(format!("wasm compilation failed: {e}"));
            return None;
        }
    };
    let file = format!("{}/w{}.wasm", c.work(), c.worker);
    std::fs::write(&file, &bytes).unwrap_or_else(|e| panic!("harness-env: {e}"));
    c.st.count("module bytes", bytes.len() as u64);
    let mut v = wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all());
    if let Err(e) = v.validate_all(&bytes) {
        c.violation(format!("emitted module is not valid: {e}"));
        return None;
    }
    Some(file)
}

fn compare(c: &mut Case, what: &str, b: &interp::RunInfo, r: &WasmRun) -> bool {
    c.st.count("wasm executions", 1);
    c.st.count("events compared", r.events.len() as u64);
    if b.pure_trap || b.unspec {
        let n = b.obs.events.len();
        if r.events.len() < n || r.events[..n] != b.obs.events[..] {
            c.violation(format!("{what}: trace before a trap differs"));
            return false;
        }
        return true;
    }
    let end = if b.stop.is_some() { "trap" } else { "return" };
    if r.events != b.obs.events || !r.end.starts_with(end) {
        let n = b.obs.events.iter().zip(&r.events).take_while(|(a, b)| a == b).count();
        c.violation(format!(
            "{what}: at event {n} reference {:?} end {}; wasm {:?} end {}",
            b.obs.events.get(n), b.obs.end, r.events.get(n), r.end
        ));
        return false;
    }
    true
}

fn wasm_case(c: &mut Case, text: &str, inputs: &[Vec<u64>]) {
    let Some(want) = reference(c, text, inputs) else { return };
    pipeline::set_inline(c.rng.chance(65));
    let Some(file) = compile(c, text) else { return };
    let short = c.rng.chance(50);
    match execute(&file, inputs, short) {
        Err(e) => c.violation(format!("engine rejects the module: {e}")),
        Ok(runs) => {
            for (i, (w, r)) in want.iter().zip(&runs).enumerate() {
                if !compare(c, &format!("input {i}"), w, r) {
                    return;
                }
            }
        }
    }
    if want.iter().any(|w| w.obs.events.len() > 2) {
        c.distinct(text);
    }
    c.sample(|| format!("inputs {:x?} events {}\n{text}", inputs[0], want[0].obs.events.len()));
}

pub fn features(r: &mut crate::rng::Rng) -> Features {
    let mut f = Features::wasm();
    f.bytes = r.chance(40);
    f
}

pub fn check_wasm(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "programs", cfg.n(2000, 40_000), |c| {
        let mut f = Features::wasm();
        if c.rng.chance(40) {
            f.adt = false;
            f.boxing = false;
        }
        f.traps = c.rng.chance(15);
        f.const_heavy = c.rng.chance(40);
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        wasm_case(c, &text, &inputs);
    });
    let b = run_cases(cfg, "bytes", cfg.n(800, 16_000), |c| {
        let mut f = Features::wasm();
        f.bytes = true;
        f.strings = c.rng.chance(60);
        f.write = c.rng.chance(60);
        f.traps = c.rng.chance(25);
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        wasm_case(c, &text, &inputs);
    });
    st.merge(b);
    st.rules.push("random whole programs run by the reference interpreter and, compiled by the real WebAssembly pipeline, validated and run in an engine with garbage-collected types; host-call traces must be equal. Non-trivial = some input gives at least three events.".into());
    st
}

/// Debugging aid: compare one file.
pub fn wasmcmp(text: &str) -> i32 {
    let mut inputs: Vec<u64> = vec![];
    if let Some(r) = text.lines().next().and_then(|l| l.strip_prefix("; inputs [[")) {
        inputs = r.split(']').next().unwrap().split(", ").filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    }
    inputs.resize(16, 0);
    let text: String = text.lines().filter(|l| !l.starts_with(';')).map(|l| format!("{l}\n")).collect();
    let mut ctx = IrContext::new();
    let Ok(op) = parse_module(&mut ctx, &text) else {
        println!("parse");
        return 2;
    };
    let r = interp::run_main(&ctx, op, "main", &inputs, crate::c_opt::FUEL);
    if matches!(r.stop, Some(interp::Stop::Bad(_) | interp::Stop::Fuel)) {
        println!("reference: {:?}", r.stop);
        return 2;
    }
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    if !trunk_ir::validation::validate_all(&ctx, m).is_ok() {
        println!("invalid");
        return 2;
    }
    let bytes = match pipeline::wasm_binary(&mut ctx, m) {
        Ok(b) => b,
        Err(e) => {
            println!("compile: {e}");
            return 2;
        }
    };
    if std::env::var_os("VH_DIS").is_some() {
        disassemble(&bytes);
    }
    let f = format!("/tmp/wasmcmp.{}.wasm", std::process::id());
    std::fs::write(&f, &bytes).unwrap();
    let mut v = wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all());
    let valid = v.validate_all(&bytes).map(|_| ()).map_err(|e| e.to_string());
    let runs = execute(&f, &[inputs], false);
    if std::env::var_os("VH_KEEP").is_none() {
        let _ = std::fs::remove_file(&f);
    }
    println!("ref {:?} {}", r.obs.events, r.obs.end);
    match runs {
        Ok(x) => {
            println!("wasm {:?} {} valid {valid:?}", x[0].events, x[0].end);
            (valid.is_err() || x[0].events != r.obs.events) as i32
        }
        Err(e) => {
            println!("rejected {e} valid {valid:?}");
            1
        }
    }
}

/// Debugging aid.
pub fn disassemble(bytes: &[u8]) {
    for p in wasmparser::Parser::new(0).parse_all(bytes).flatten() {
        match p {
            wasmparser::Payload::TypeSection(r) => r.into_iter().enumerate().for_each(|(i, t)| println!("type {i} {t:?}")),
            wasmparser::Payload::CodeSectionEntry(b) => {
                println!("FUNC {:x}", b.range().start);
                for o in b.get_operators_reader().unwrap().into_iter_with_offsets().flatten() {
                    println!("  {:x} {:?}", o.1, o.0);
                }
            }
            _ => {}
        }
    }
}
