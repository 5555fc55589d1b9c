//! Closures: higher-order programs keep their meaning on every route.
use crate::clo::{self, Gen};
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::interp::Event;
use crate::nat;
use crate::pipeline::{self, NativeOpts};
use crate::rng::Rng;
use trunk_ir::parser::parse_module;
use trunk_ir::{IrContext, Module};

fn load(text: &str) -> Result<(IrContext, Module), String> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).map_err(|e| format!("harness: {e:?}"))?;
    crate::c_native::attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    Ok((ctx, m))
}

fn native(work: &str, tag: &str, text: &str, bits: u32, inputs: &[Vec<u64>], heap: nat::Heap) -> Result<Vec<nat::NatRun>, String> {
    let (mut ctx, m) = load(text)?;
    pipeline::shared(&mut ctx, m).map_err(|e| format!("shared stage: {e}"))?;
    let obj = pipeline::native_late(&mut ctx, m, NativeOpts::from_bits(bits)).map_err(|e| format!("native: {e}"))?;
    let exe = nat::link(work, tag, &obj).map_err(|e| format!("link: {}", e.chars().take(300).collect::<String>()))?;
    Ok(inputs.iter().map(|i| nat::run_mode(work, tag, &exe, i, heap)).collect())
}

fn differ(want: &[Event], got: &[Event], end: &str) -> Option<String> {
    if want == got && end.starts_with("return") {
        return None;
    }
    let n = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    Some(format!("at event {n} reference {:?}; compiled {:?} end {end}", want.get(n), got.get(n)))
}

/// Debugging aid
pub fn cloone(seed: u64) -> i32 {
    let p = Gen::new(&mut Rng::new(seed)).program();
    let text = clo::emit(&p);
    let _ = std::fs::create_dir_all("/tmp/eo");
    std::fs::write(format!("/tmp/eo/c{seed}.ir"), &text).unwrap();
    let inputs: Vec<u64> = (0..16).map(|i| i * 7 + 3).collect();
    let Some(r) = clo::reference(&p, &inputs) else {
        println!("{seed} fuel");
        return 0;
    };
    let mut bad = 0;
    for bits in [0, 7] {
        match native("/tmp/eo", &format!("c{seed}"), &text, bits, &[inputs.clone()], nat::Heap::Keep) {
            Err(e) => {
                println!("{seed} native {bits}: {e}");
                bad = 1;
            }
            Ok(n) => {
                if let Some(d) = differ(&r.events, &n[0].obs.events, &n[0].obs.end).or(n[0].mem.first().cloned()) {
                    println!("{seed} native {bits}: {d}");
                    bad = 1;
                }
            }
        }
    }
    if bad == 0 {
        println!("{seed} ok {} events {} made {} called", r.events.len(), r.made, r.called);
    }
    bad
}

fn one(c: &mut Case) {
    let p = Gen::new(&mut c.rng).program();
    run(c, p, nat::Heap::Keep);
}

/// Function values that are captured, passed and returned only, on the guarded heap.
pub fn guarded(c: &mut Case) {
    let p = Gen::new(&mut c.rng).simple().program();
    run(c, p, nat::Heap::Guarded);
}

const FIELD: &str = "a closure read back from a record that the compiled code releases right after the read is called after it was freed";
const GENERIC: &str = "a closure that passes through a generic function is called after it was freed";

/// The two recorded defects of closure lifetimes, each on its own program.
pub fn witness(c: &mut Case) {
    let (text, what) = if c.idx == 0 { (include_str!("../witness/closure-field.ir"), FIELD) } else { (include_str!("../witness/closure-generic.ir"), GENERIC) };
    c.input(text.to_string());
    let work = c.work().to_string();
    let inputs: Vec<u64> = (0..16).map(|i| i * 7 + 3).collect();
    pipeline::set_inline(true);
    match native(&work, &format!("w{}", c.worker), text, 7, &[inputs], nat::Heap::Guarded) {
        Err(e) if e.contains("harness") => panic!("{e}"),
        Err(e) => c.violation(e),
        Ok(rs) => {
            let r = &rs[0];
            if r.mem.iter().any(|m| m.contains("use after free")) {
                c.st.known.push(what.into());
            } else if !r.mem.is_empty() || !r.obs.end.starts_with("return") {
                c.violation(format!("end {} mem {:?}", r.obs.end, r.mem));
            }
        }
    }
}

fn run(c: &mut Case, p: clo::Prog, heap: nat::Heap) {
    let text = clo::emit(&p);
    let inputs: Vec<Vec<u64>> = (0..2).map(|_| (0..16).map(|_| if c.rng.chance(50) { c.rng.below(9) as u64 } else { c.rng.u64() & 0xffff_ffff }).collect()).collect();
    c.input(format!("; inputs {inputs:x?}\n{text}"));
    let mut want = vec![];
    for i in &inputs {
        let Some(m) = clo::reference(&p, i) else {
            c.skip("reference evaluation too long");
            return;
        };
        c.st.count("closures made", m.made);
        c.st.count("closures called", m.called);
        c.st.count("named functions used as values", m.named);
        c.st.max("deepest call", m.deepest);
        want.push(m.events);
    }
    pipeline::set_inline(c.rng.chance(65));
    let tag = format!("c{}", c.worker);
    let work = c.work().to_string();
    let bits = c.rng.below(8) as u32;
    match native(&work, &tag, &text, bits, &inputs, heap) {
        Err(e) if e.contains("harness") => panic!("{e}"),
        Err(e) => return c.violation(e),
        Ok(rs) => {
            for (w, r) in want.iter().zip(&rs) {
                c.st.count("native executions", 1);
                c.st.count("events compared", r.obs.events.len() as u64);
                if let Some(d) = r.mem.first() {
                    return c.violation(format!("native (policy {bits}): {d}; end {}", r.obs.end));
                }
                if let Some(d) = differ(w, &r.obs.events, &r.obs.end) {
                    return c.violation(format!("native (policy {bits}): {d}"));
                }
            }
        }
    }
    if want.iter().any(|w| w.len() > 2) {
        c.distinct(&text);
    }
    c.sample(|| text);
}

pub fn check_closures(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "closures", cfg.n(900, 30_000), one);
    st.rules = vec![
        "a higher-order program in direct style (closures captured, nested, passed, returned, stored in records, sent through generic functions, called with and without handler evidence; named functions as values) is evaluated by a reference with lexical environments; its natively compiled form, with and without inlining and under a random reference-counting policy, on a heap that never reuses memory, makes the same external calls with the same arguments and ends normally. Non-trivial = at least three external calls.".into(),
    ];
    st
}
