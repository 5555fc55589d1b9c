//! Native code shows the same behaviour as the IR it was compiled from.
use crate::c_opt::FUEL;
use crate::drv::{Case, Cfg, Stats, guard, run_cases};
use crate::interp::{self, Stop};
use crate::nat;
use crate::pipeline::{self, NativeOpts};
use crate::progen::{self, Features, Gen};
use trunk_ir::parser::parse_module;
use trunk_ir::{IrContext, Module};

/// expected end marker of a native run
pub fn native_end(b: &interp::RunInfo) -> Option<&'static str> {
    match &b.stop {
        None => Some("return"),
        Some(Stop::Trap(_)) => None,
        _ => None,
    }
}

/// what the front end records on a module about the prelude's String
pub fn attach_known(ctx: &mut IrContext, module: trunk_ir::OpRef) {
    let string = ctx.types.iter().find_map(|(ty, d)| {
        (d.dialect == trunk_ir::Symbol::new("adt") && d.attrs.get_symbol("name") == Some(trunk_ir::Symbol::new("String")))
            .then_some(ty)
    });
    tribute_ir::metadata::WellKnownTypes { string }.attach(ctx, module);
}

pub struct Built {
    pub exe: String,
}

pub fn build(c: &mut Case, text: &str, o: NativeOpts, tag: &str) -> Option<Built> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let obj = match pipeline::native_object(&mut ctx, m, o) {
        Ok(b) => b,
        Err(e) if declined(&e) => {
            c.st.count("declined by the ownership contract", 1);
            return None;
        }
        Err(e) => {
            c.violation(format!("native compilation failed ({o:?}): {e}"));
            return None;
        }
    };
    match nat::link(c.work(), tag, &obj) {
        Ok(exe) => Some(Built { exe }),
        Err(e) => {
            if e.contains("harness-env:") {
                panic!("{e}");
            }
            c.violation(format!("native object does not link: {}", e.chars().take(400).collect::<String>()));
            None
        }
    }
}

pub fn reference(c: &mut Case, text: &str, inputs: &[Vec<u64>]) -> Option<Vec<interp::RunInfo>> {
    // only the call battery loops by tail calls
    let fuel = if text.contains("func.tail_call") { FUEL * 25 } else { FUEL };
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let rs: Vec<_> = inputs.iter().map(|i| interp::run_main(&ctx, op, "main", i, fuel)).collect();
    for r in &rs {
        match &r.stop {
            Some(Stop::Bad(e)) => panic!("harness: generated program has no meaning: {e}"),
            Some(Stop::Fuel) => {
                c.skip("fuel");
                return None;
            }
            _ => {}
        }
        for (k, n) in &r.ops {
            c.st.count(&format!("executed {k}"), *n);
        }
    }
    Some(rs)
}

pub fn compare(c: &mut Case, what: &str, b: &interp::RunInfo, r: &nat::NatRun) -> bool {
    c.st.count("native executions", 1);
    c.st.count("events compared", r.obs.events.len() as u64);
    if r.timed_out {
        c.violation(format!("{what}: native program did not stop"));
        return false;
    }
    if b.pure_trap || b.unspec {
        // division may be folded away when dead; the trace up to the trap is binding
        let n = b.obs.events.len();
        if r.obs.events.len() < n || r.obs.events[..n] != b.obs.events[..] {
            c.violation(format!("{what}: trace before a trap differs"));
            return false;
        }
        return true;
    }
    let end = if b.stop.is_some() { "signal" } else { "return" };
    if r.obs.events != b.obs.events || !r.obs.end.starts_with(end) {
        let n = b.obs.events.iter().zip(&r.obs.events).take_while(|(a, b)| a == b).count();
        c.violation(format!(
            "{what}: at event {n} reference {:?} end {}; native {:?} end {} mem {:?}",
            b.obs.events.get(n), b.obs.end, r.obs.events.get(n), r.obs.end, r.mem.first()
        ));
        return false;
    }
    true
}

pub fn check_native(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "programs", cfg.n(1000, 30_000), |c| {
        let mut f = Features::native();
        f.strict_loops = true;
        if c.rng.chance(50) {
            f.adt = false;
            f.boxing = false;
        }
        if c.rng.chance(15) {
            f.traps = true;
        }
        f.const_heavy = c.rng.chance(40);
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        native_case(c, &text, &inputs);
    });
    let ops = run_cases(cfg, "operators", cfg.n(160, 4_000), |c| {
        let text = progen::operator_battery(&mut c.rng);
        let inputs: Vec<Vec<u64>> = (0..40).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        native_case(c, &text, &inputs);
    });
    st.merge(ops);
    let bytes = run_cases(cfg, "bytes", cfg.n(400, 10_000), |c| {
        let mut f = Features::native();
        f.strict_loops = true;
        f.bytes = true;
        f.strings = c.rng.chance(60);
        f.write = c.rng.chance(50);
        f.read = c.rng.chance(30);
        f.indirect = !f.write && !f.read && c.rng.chance(30);
        f.traps = c.rng.chance(25);
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        native_case(c, &text, &inputs);
    });
    st.merge(bytes);
    let calls = run_cases(cfg, "calls", cfg.n(300, 8_000), |c| {
        let deep = if c.rng.chance(6) { 150_000 } else { 0 };
        let text = crate::calls::module(&mut c.rng, deep);
        let inputs: Vec<Vec<u64>> = (0..if deep > 0 { 1 } else { 3 }).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        native_case(c, &text, &inputs);
    });
    st.merge(calls);
    st.rules.push("random whole programs, and batteries of single operators on opaque boundary operands, run by the reference interpreter and, compiled by the real native pipeline and loaded next to the real runtime, on the machine; host-call traces must be equal. Non-trivial = some input gives at least three events.".into());
    st
}

fn native_case(c: &mut Case, text: &str, inputs: &[Vec<u64>]) {
    let Some(want) = reference(c, text, inputs) else { return };
    let tag = format!("n{}", c.worker);
    let o = if c.rng.chance(70) { NativeOpts::PRODUCTION } else { NativeOpts::from_bits(c.rng.below(8) as u32) };
    pipeline::set_inline(c.rng.chance(65));
    let Some(b) = build(c, text, o, &tag) else { return };
    for (i, w) in want.iter().enumerate() {
        let r = nat::run(c.work(), &tag, &b.exe, &inputs[i], false);
        if !compare(c, &format!("input {i}"), w, &r) {
            return;
        }
    }
    if want.iter().any(|w| w.obs.events.len() > 2) {
        c.distinct(text);
    }
    c.sample(|| format!("inputs {:x?} events {}\n{text}", inputs[0], want[0].obs.events.len()));
}

pub fn check_memory(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "heap", cfg.n(500, 12_000), |c| {
        let mut f = Features::native();
        f.strict_loops = true;
        f.float_conv = false;
        f.heap_bias = true;
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        memory_case(c, &text, &inputs, Conserve::No);
    });
    let bal = run_cases(cfg, "balance", cfg.n(250, 6_000), |c| {
        let mut f = Features::native();
        f.adt = c.rng.chance(40);
        let boxes_only = !f.adt;
        f.loops = crate::progen::Loops::No;
        f.switch = false;
        f.straight = true;
        f.recursion = false;
        f.heap_bias = true;
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..2).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        memory_case(c, &text, &inputs, if boxes_only { Conserve::All } else { Conserve::Policies });
    });
    st.merge(bal);
    let bytes = run_cases(cfg, "bytes", cfg.n(120, 4_000), |c| {
        let mut f = Features::native();
        f.strict_loops = true;
        f.bytes = true;
        f.strings = c.rng.chance(50);
        f.write = c.rng.chance(40);
        f.read = c.rng.chance(40);
        f.indirect = false;
        f.heap_bias = c.rng.chance(50);
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..2).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        memory_case(c, &text, &inputs, Conserve::No);
    });
    st.merge(bytes);
    let rc = run_cases(cfg, "counting", cfg.n(1200, 40_000), |c| {
        let straight = c.rng.chance(25);
        let refs = straight || c.rng.chance(75);
        let text = if refs {
            crate::rcgen::G::new(&mut c.rng, straight, false).module()
        } else {
            let mut f = Features::native();
            f.strict_loops = true;
            f.float_conv = false;
            f.heap_bias = true;
            Gen::new(&mut c.rng, f).module()
        };
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        count_case(c, &text, &inputs, straight);
    });
    st.merge(rc);
    let refs = run_cases(cfg, "references", cfg.n(220, 4_000), |c| {
        let straight = c.rng.chance(25);
        let bytes = c.rng.chance(40);
        let text = crate::rcgen::G::new(&mut c.rng, straight, bytes).module();
        let inputs: Vec<Vec<u64>> = (0..2).map(|_| progen::inputs(&mut c.rng)).collect();
        c.input(format!("; inputs {inputs:x?}\n{text}"));
        memory_case(c, &text, &inputs, if straight { Conserve::Policies } else { Conserve::No });
    });
    st.merge(refs);
    st.merge(run_cases(cfg, "closures", cfg.n(300, 10_000), crate::c_clo::guarded));
    st.merge(run_cases(cfg, "witness", 2, crate::c_clo::witness));
    st.rules.push("heap-heavy programs compiled under three reference-counting policy combinations each and run on an allocator that gives every object its own guarded page and poisons it on release; no access to a released object, double release, foreign or mis-sized release or overrun may happen, and the trace must equal the reference; in straight-line programs every policy must reclaim the same number of objects, and all of them when only boxes are used. Reference-focused programs additionally run, before and after retain/release insertion, on a counting shadow heap (touching, retaining or releasing a freed object, giving back one that a live field refers to, wrong sizes, and counts below the number of referring fields at the end are violations). Non-trivial = at least two objects released.".into());
    st
}

#[derive(PartialEq)]
enum Conserve {
    No,
    /// every policy reclaims the same number of objects
    Policies,
    /// and every object is reclaimed
    All,
}

fn memory_case(c: &mut Case, text: &str, inputs: &[Vec<u64>], conserve: Conserve) {
    let Some(want) = reference(c, text, inputs) else { return };
    let extra = NativeOpts::from_bits(1 + c.rng.below(6) as u32);
    pipeline::set_inline(c.rng.chance(70));
    let mut first: Vec<Option<(u64, u64, u64)>> = vec![None; inputs.len()];
    let mut freed = 0;
    for o in [NativeOpts::PRODUCTION, NativeOpts::BASELINE, extra] {
        let tag = format!("m{}", c.worker);
        let Some(b) = build(c, text, o, &tag) else { return };
        for (i, w) in want.iter().enumerate() {
            let r = nat::run(c.work(), &tag, &b.exe, &inputs[i], true);
            c.st.count("objects allocated", r.allocs);
            c.st.count("objects released", r.frees);
            c.st.max("live objects", r.max_live);
            if let Some(m) = r.mem.first() {
                c.violation(format!("{o:?} input {i}: {m}"));
                return;
            }
            if !compare(c, &format!("{o:?} input {i}"), w, &r) {
                return;
            }
            if w.stop.is_some() || w.pure_trap || w.unspec {
                continue;
            }
            freed += r.frees;
            let now = (r.allocs, r.frees, r.unsized_);
            match first[i] {
                None => first[i] = Some(now),
                Some(f) if f != now && conserve != Conserve::No => {
                    c.violation(format!("{o:?} input {i}: allocations/releases/unsized releases {now:?}, under the production policy {f:?}"));
                    return;
                }
                _ => {}
            }
            if conserve == Conserve::All && r.allocs != r.frees {
                c.violation(format!("{o:?} input {i}: {} objects allocated, {} released", r.allocs, r.frees));
                return;
            }
        }
    }
    if freed >= 2 {
        c.distinct(text);
    }
    c.sample(|| format!("released {freed}\n{text}"));
}

/// Debugging aid: 0 = same, 1 = differs, 2 = not comparable.
pub fn natcmp(text: &str, bits: u32, mem: bool) -> i32 {
    let mut inputs: Vec<u64> = vec![];
    if let Some(l) = text.lines().next() {
        if let Some(r) = l.strip_prefix("; inputs [[") {
            let r = r.split(']').next().unwrap();
            inputs = r.split(", ").filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
        }
    }
    inputs.resize(16, 0);
    let text: String = text.lines().filter(|l| !l.starts_with(';')).map(|l| format!("{l}\n")).collect();
    let mut ctx = IrContext::new();
    let Ok(op) = parse_module(&mut ctx, &text) else { println!("parse"); return 2 };
    let r = interp::run_main(&ctx, op, "main", &inputs, FUEL * 25);
    if let Some(s) = &r.stop {
        if !matches!(s, Stop::Trap(_)) {
            println!("reference: {s:?}");
            return 2;
        }
    }
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let v = trunk_ir::validation::validate_all(&ctx, m);
    if !v.is_ok() && std::env::var_os("VH_ALLOW").is_none() {
        println!("invalid");
        return 2;
    }
    let obj = match pipeline::native_object(&mut ctx, m, NativeOpts::from_bits(bits)) {
        Ok(o) => o,
        Err(e) => {
            println!("compile: {e}");
            return 2;
        }
    };
    let d = format!("/tmp/natcmp.{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    let exe = nat::link(&d, "x", &obj).unwrap();
    let n = nat::run(&d, "x", &exe, &inputs, mem);
    let _ = std::fs::remove_dir_all(&d);
    println!("ref {:?} {}\nnat {:?} {} mem {:?} alloc {} free {}", r.obs.events, r.obs.end, n.obs.events, n.obs.end, n.mem, n.allocs, n.frees);
    let end = if r.stop.is_some() { "signal" } else { "return" };
    (n.obs.events != r.obs.events || !n.obs.end.starts_with(end) || (mem && !n.mem.is_empty())) as i32
}

/// One program on the counting heap.
pub fn rccount(text: &str, bits: u32, inl: bool) -> i32 {
    use crate::rcvm::{Vm, owning_stores};
    let mut inputs: Vec<Vec<u64>> = vec![];
    if let Some(r) = text.lines().next().and_then(|l| l.strip_prefix("; inputs [[")) {
        for p in r.split("], [") {
            inputs.push(p.trim_end_matches(']').split(", ").filter_map(|x| u64::from_str_radix(x, 16).ok()).collect());
        }
    }
    if inputs.is_empty() {
        inputs.push(vec![0; 16]);
    }
    let text: String = text.lines().filter(|l| !l.starts_with(';')).map(|l| format!("{l}\n")).collect();
    pipeline::set_inline(inl);
    let o = NativeOpts::from_bits(bits);
    let (mut ctx, m, sum) = match lower_to_rc(&text, o) {
        Ok(x) => x,
        Err(e) => {
            println!("not lowered: {e}");
            return 2;
        }
    };
    let own = owning_stores(&ctx, m.op());
    let pre = trunk_ir::printer::print_module(&ctx, m.op());
    for i in &inputs {
        let mut vm = Vm::new(&ctx, m.op(), &own, i, RC_FUEL).uncounted();
        let r = vm.run("main");
        println!("before: {r:?} {:?}", vm.trace);
    }
    if let Err(e) = pipeline::native_rc(&mut ctx, m, o, &sum) {
        println!("refused: {e}");
        return 2;
    }
    if std::env::var_os("VH_SHOW").is_some() {
        println!("{pre}\n=======\n{}", trunk_ir::printer::print_module(&ctx, m.op()));
    }
    for i in &inputs {
        let mut vm = Vm::new(&ctx, m.op(), &own, i, RC_FUEL * 4);
        let r = vm.run("main");
        println!("after: {r:?} {:?} live {}", vm.trace, vm.live());
    }
    0
}

/// Lower to the point where reference counting is inserted.
fn lower_to_rc(text: &str, o: NativeOpts) -> Result<(IrContext, Module, tribute_passes::native::ownership_summary::TrustedOwnershipSummaries), String> {
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, text).map_err(|e| format!("parse: {e:?}"))?;
    attach_known(&mut ctx, op);
    let m = Module::new(&ctx, op).unwrap();
    let v = trunk_ir::validation::validate_all(&ctx, m);
    if !v.is_ok() {
        return Err(format!("invalid: {}", v.errors.first().map(|e| e.to_string()).unwrap_or_default()));
    }
    if !pipeline::raw_function_values(&ctx, op) {
        pipeline::shared(&mut ctx, m)?;
    }
    pipeline::native_target(&mut ctx, m)?;
    let (_, s) = pipeline::native_to_rc(&mut ctx, m, o)?;
    Ok((ctx, m, s))
}

const RC_FUEL: u64 = 300_000;

/// The same code before and after retain/release insertion, on a heap that counts.
/// A proper tail call handing over a freshly constructed object is refused with this diagnostic
/// (an over-cautious refusal, not an unsafe program).
fn declined(e: &str) -> bool {
    e.contains("call ownership contract changed during func_to_clif")
}

fn count_case(c: &mut Case, text: &str, inputs: &[Vec<u64>], straight: bool) {
    use crate::rcvm::{Stop, Vm, owning_stores};
    let inl = c.rng.chance(50);
    pipeline::set_inline(inl);
    let extra = [1 + c.rng.below(6) as u32, c.rng.below(8) as u32];
    let mut want: Vec<Option<Vec<String>>> = vec![];
    let mut live: Vec<Option<usize>> = vec![None; inputs.len()];
    let mut seen = 0;
    for (k, o) in [NativeOpts::PRODUCTION, NativeOpts::BASELINE, NativeOpts::from_bits(extra[0]), NativeOpts::from_bits(extra[1])].into_iter().enumerate() {
        let (mut ctx, m, sum) = match guard(|| lower_to_rc(text, o)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                if std::env::var_os("VH_DBG").is_some() {
                    eprintln!("{e}\n{text}");
                }
                return c.skip("not lowered");
            }
            Err(p) => return c.violation(format!("panic while lowering: {p}")),
        };
        let own = owning_stores(&ctx, m.op());
        if k == 0 {
            for i in inputs {
                let mut vm = Vm::new(&ctx, m.op(), &own, i, RC_FUEL).uncounted();
                match vm.run("main") {
                    Ok(()) => want.push(Some(vm.trace)),
                    Err(Stop::Unsupported(u)) => {
                        c.st.count(&format!("outside the counting monitor: {u}"), 1);
                        return c.skip("outside the counting monitor");
                    }
                    Err(e) => {
                        if std::env::var_os("VH_DBG").is_some() {
                            eprintln!("STOP {e:?}");
                        }
                        c.st.count("runs ending early", 1);
                        want.push(None)
                    }
                }
            }
        }
        match guard(|| pipeline::native_rc(&mut ctx, m, o, &sum)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) if declined(&e) => return c.st.count("declined by the ownership contract", 1),
            Ok(Err(e)) => return c.violation(format!("{o:?}: reference counting refused the program: {e}")),
            Err(p) => return c.violation(format!("{o:?}: panic while inserting: {p}")),
        }
        for (n, i) in inputs.iter().enumerate() {
            let Some(w) = &want[n] else { continue };
            let mut vm = Vm::new(&ctx, m.op(), &own, i, RC_FUEL * 4);
            let r = vm.run("main");
            c.st.count("retains executed", vm.retains);
            c.st.count("releases executed", vm.releases);
            c.st.count("objects reclaimed by count", vm.frees);
            seen += vm.frees;
            match r {
                Ok(()) => {}
                Err(Stop::Bad(b)) => return c.violation(format!("{o:?} inline {inl} input {n}: {b}")),
                Err(e) => return c.violation(format!("{o:?} inline {inl} input {n}: {e:?}")),
            }
            if vm.trace != *w {
                return c.violation(format!("{o:?} inline {inl} input {n}: shows {:?} instead of {w:?}", vm.trace));
            }
            if straight {
                match live[n] {
                    None => live[n] = Some(vm.live()),
                    Some(l) if l != vm.live() => {
                        return c.violation(format!("{o:?} inline {inl} input {n}: leaves {} objects, the production policy {l}", vm.live()));
                    }
                    _ => {}
                }
            }
        }
    }
    if seen >= 2 {
        c.distinct(text);
    }
    c.sample(|| format!("reclaimed {seen}\n{text}"));
}
