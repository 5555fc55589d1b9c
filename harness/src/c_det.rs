//! The compiler is a function of its input: monitors the output of every stage over repeated
//! compilations in one process, on other threads, after other work, and in other processes.
use crate::c_native::attach_known;
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::pipeline::{self, NativeOpts};
use crate::progen::{Features, Gen};
use crate::rng::{Rng, hash_bytes};
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::{IrContext, Module};

type Trace = Vec<(&'static str, Vec<u8>)>;

fn parsed(text: &str) -> (IrContext, Module) {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    (ctx, m)
}

/// The output of every stage of one compilation. Failures are output too.
pub fn stages(text: &str, target: &str, bits: u32) -> Trace {
    pipeline::set_inline(bits & 16 == 0);
    let mut t: Trace = vec![];
    let (mut ctx, m) = parsed(text);
    let p = |ctx: &IrContext| print_module(ctx, m.op()).into_bytes();
    t.push(("parsed", p(&ctx)));
    if !pipeline::raw_function_values(&ctx, m.op()) {
        let r = pipeline::shared(&mut ctx, m);
        t.push(("shared status", format!("{r:?}").into_bytes()));
        t.push(("shared", p(&ctx)));
        if r.is_err() {
            return t;
        }
    }
    match target {
        "native" => {
            let r = pipeline::native_target(&mut ctx, m);
            t.push(("native target status", format!("{r:?}").into_bytes()));
            t.push(("native target", p(&ctx)));
            if r.is_err() {
                return t;
            }
            match pipeline::native_prepare(&mut ctx, m, NativeOpts::from_bits(bits)) {
                Err(e) => t.push(("native prepare status", e.into_bytes())),
                Ok(ro) => {
                    t.push(("native prepared", p(&ctx)));
                    let s: Vec<String> = ro.iter().map(|r| format!("{} {:?}", r.symbol, r.data)).collect();
                    t.push(("read-only data", s.join("\n").into_bytes()));
                    match trunk_ir_cranelift_backend::emit_module_to_native(&ctx, m, &ro) {
                        Ok(o) => t.push(("object", o)),
                        Err(e) => t.push(("object status", e.to_string().into_bytes())),
                    }
                }
            }
        }
        "wasm" => {
            pipeline::inline(&mut ctx, m);
            let r = pipeline::abi(&mut ctx, m).and_then(|_| pipeline::cleanup(&mut ctx, m));
            t.push(("wasm target status", format!("{r:?}").into_bytes()));
            t.push(("wasm target", p(&ctx)));
            if r.is_err() {
                return t;
            }
            let r = pipeline::wasm_backend(&mut ctx, m);
            t.push(("wasm lowered", p(&ctx)));
            match r {
                Ok(b) => t.push(("binary", b)),
                Err(e) => t.push(("wasm status", e.into_bytes())),
            }
        }
        _ => unreachable!(),
    }
    t
}

fn digest(t: &Trace) -> Vec<String> {
    t.iter().map(|(k, v)| format!("{k}\t{}\t{:016x}", v.len(), hash_bytes(v))).collect()
}

/// Words of a program in another order, interned before the program is read, so that symbol
/// numbers differ from those of every other run.
fn scramble(text: &str, salt: u64) {
    let mut w: Vec<&str> = text
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .filter(|s| !s.is_empty())
        .collect();
    w.sort();
    w.dedup();
    let mut r = Rng::new(salt);
    r.shuffle(&mut w);
    for (i, s) in w.iter().enumerate() {
        if i % 3 == 0 {
            let _ = trunk_ir::Symbol::from_dynamic(&format!("pad{salt}_{i}"));
        }
        let _ = trunk_ir::Symbol::from_dynamic(s);
    }
}

/// `vharness detone FILE TARGET BITS SALT`: print the digest of every stage.
pub fn detone(file: &str, target: &str, bits: u32, salt: u64) -> i32 {
    let text = std::fs::read_to_string(file).unwrap();
    if salt != 0 {
        scramble(&text, salt);
    }
    for l in digest(&stages(&text, target, bits)) {
        println!("{l}");
    }
    0
}

fn first_diff(a: &[String], b: &[String]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("first differing stage: {:?} / {:?}", a.get(n), b.get(n))
}

fn text_diff(a: &Trace, b: &Trace) -> String {
    for ((k, x), (_, y)) in a.iter().zip(b) {
        if x != y {
            let (x, y) = (String::from_utf8_lossy(x), String::from_utf8_lossy(y));
            if let Some((l, r)) = x.lines().zip(y.lines()).find(|(l, r)| l != r) {
                let cut = |s: &str| s.chars().take(120).collect::<String>();
                return format!("stage {k}: {:?} / {:?}", cut(l), cut(r));
            }
            return format!("stage {k}");
        }
    }
    "number of stages".into()
}

fn det_case(c: &mut Case, text: &str, target: &'static str, between: &str, cross: bool) {
    let bits = c.rng.below(32) as u32 & !8;
    let a = stages(text, target, bits);
    let da = digest(&a);
    for (k, v) in &a {
        if k.ends_with("status") && !v.starts_with(b"Ok") {
            c.st.count("compilations that report an error", 1);
        }
    }
    c.st.count(&format!("stage outputs observed ({target})"), a.len() as u64);
    c.st.count("bytes compared", a.iter().map(|x| x.1.len() as u64).sum());
    // again after other work, so every hash table has another seed
    for round in 0..2 {
        let _ = stages(between, target, bits);
        let b = stages(text, target, bits);
        c.st.count("repeated compilations", 1);
        if a != b {
            c.violation(format!("{target}: repetition {round} in the same process differs, {}", text_diff(&a, &b)));
            return;
        }
    }
    // on another thread
    let (t2, a2) = (text.to_string(), &a);
    let other = std::thread::scope(|s| {
        s.spawn(move || {
            let b = stages(&t2, target, bits);
            (b != *a2).then(|| text_diff(a2, &b))
        })
        .join()
        .unwrap_or_else(|_| Some("panicked".into()))
    });
    c.st.count("compilations on another thread", 1);
    if let Some(d) = other {
        c.violation(format!("{target}: compilation on another thread differs, {d}"));
        return;
    }
    if cross {
        let file = format!("{}/det.{}.ir", c.work(), c.worker);
        std::fs::write(&file, text).unwrap_or_else(|e| panic!("harness-env: {e}"));
        for salt in [0, 1 + c.rng.below(1 << 30) as u64] {
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["detone", &file, target, &bits.to_string(), &salt.to_string()])
                .output()
                .unwrap_or_else(|e| panic!("harness-env: {e}"));
            let db: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect();
            c.st.count(
                if salt == 0 { "compilations in another process" } else { "compilations in another process with other symbol numbers" },
                1,
            );
            if da != db {
                c.violation(format!("{target}: compilation in another process (salt {salt}) differs, {}", first_diff(&da, &db)));
                return;
            }
        }
    }
    c.distinct(&da.join("\n"));
}

fn program(r: &mut Rng, target: &str) -> String {
    match target {
        "native" => {
            let mut f = Features::native();
            f.strict_loops = true;
            f.const_heavy = r.chance(40);
            Gen::new(r, f).module()
        }
        _ => {
            let mut f = Features::wasm();
            f.const_heavy = r.chance(40);
            Gen::new(r, f).module()
        }
    }
}

pub fn check_det(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "native", cfg.n(300, 8000), |c| {
        let text = program(&mut c.rng, "native");
        let between = program(&mut c.rng, "native");
        c.input(text.clone());
        let cross = c.rng.chance(40);
        det_case(c, &text, "native", &between, cross);
        c.sample(|| text);
    });
    st.merge(run_cases(cfg, "wasm", cfg.n(300, 8000), |c| {
        let text = program(&mut c.rng, "wasm");
        let between = program(&mut c.rng, "wasm");
        c.input(text.clone());
        let cross = c.rng.chance(40);
        det_case(c, &text, "wasm", &between, cross);
    }));
    st.merge(run_cases(cfg, "effects", cfg.n(100, 3000), |c| {
        let text = crate::eff::emit(&crate::eff::Gen::new(&mut c.rng).program());
        let between = crate::eff::emit(&crate::eff::Gen::new(&mut c.rng).program());
        c.input(text.clone());
        let cross = c.rng.chance(40);
        det_case(c, &text, "native", &between, cross);
    }));
    // what the IR tools say and print, on generated IR of every kind
    st.merge(run_cases(cfg, "ir", cfg.n(600, 20_000), |c| {
        let text = {
            let cfg = crate::c_text::ir_cfg(&mut c.rng);
            let mut ctx = IrContext::new();
            let op = crate::irgen::IrGen::new(&mut ctx, &mut c.rng, cfg).module(0);
            print_module(&ctx, op)
        };
        c.input(text.clone());
        let one = || {
            let mut ctx = IrContext::new();
            let op = parse_module(&mut ctx, &text).unwrap_or_else(|e| panic!("harness: {e:?}"));
            let m = Module::new(&ctx, op).unwrap();
            let mut out = print_module(&ctx, op);
            let v = trunk_ir::validation::validate_all(&ctx, m);
            for e in &v.errors {
                out.push_str(&format!("\n{e}"));
            }
            out
        };
        let a = one();
        c.st.count("ir printed and validated", 1);
        c.st.count("bytes compared", a.len() as u64);
        for _ in 0..2 {
            if one() != a {
                c.violation("printing and validating the same text twice differs");
                return;
            }
        }
        c.distinct(&a);
    }));
    st.rules = vec![
        "the text after every stage, the object, the binary, the read-only data and every error message of a program equal those of the first compilation".into(),
        "repetitions run in the same process after other compilations, on another thread, in another process, and in another process with the program's symbols interned in another order".into(),
    ];
    st
}
