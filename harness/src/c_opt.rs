//! Optimisations preserve what a program shows to the outside.
use crate::drv::{Case, Cfg, Stats, run_cases};
use crate::integrity;
use crate::interp::{self, Stop};
use crate::progen::{self, Features, Gen};
use crate::rng::Rng;
use std::collections::{BTreeSet, HashSet};
use trunk_ir::analysis::AnalysisCache;
use trunk_ir::ops::DialectOp;
use trunk_ir::parser::parse_module;
use trunk_ir::pass::PassManager;
use trunk_ir::transforms::inline::{InlineConfig, inline_functions_with_config};
use trunk_ir::transforms::{DceConfig, canonicalize_pass, dce_pass};
use trunk_ir::{IrContext, Module, OpRef, Symbol};

pub const FUEL: u64 = 200_000;

#[derive(Clone, Debug)]
pub enum Step {
    Canon,
    CanonPass,
    Dce,
    DcePass,
    GlobalDce(Vec<String>),
    Inline(usize, bool, bool),
    ScfToCf,
    ScfToCfPass,
    Cleanup,
}

pub fn apply(ctx: &mut IrContext, m: Module, s: &Step) -> Result<u64, String> {
    let cm = trunk_ir::dialect::core::Module::from_op(ctx, m.op()).map_err(|e| format!("{e:?}"))?;
    Ok(match s {
        Step::Canon => {
            let r = trunk_ir::transforms::canonicalize::canonicalize(ctx, m);
            r.total_changes as u64
        }
        Step::CanonPass => {
            let mut pm = PassManager::new();
            pm.nest::<trunk_ir::dialect::func::Func>().add_pass(canonicalize_pass());
            pm.run(ctx, cm).map_err(|e| e.to_string())?;
            1
        }
        Step::Dce => {
            let r = trunk_ir::transforms::dce::eliminate_dead_code(ctx, m, DceConfig::default());
            r.removed_count as u64
        }
        Step::DcePass => {
            let mut pm = PassManager::new();
            pm.nest::<trunk_ir::dialect::func::Func>().add_pass(dce_pass(DceConfig::default()));
            pm.run(ctx, cm).map_err(|e| e.to_string())?;
            1
        }
        Step::GlobalDce(extra) => {
            use trunk_ir::transforms::global_dce::*;
            if extra.is_empty() {
                eliminate_dead_functions(ctx, m).removed_count as u64
            } else {
                let cfg = GlobalDceConfig { extra_entry_points: extra.clone(), ..Default::default() };
                eliminate_dead_functions_with_config(ctx, m, cfg).removed_count as u64
            }
        }
        Step::Inline(t, single, across) => {
            let mut n = 0;
            AnalysisCache::scope(ctx, |ctx, am| {
                n = inline_functions_with_config(
                    ctx,
                    m,
                    InlineConfig {
                        size_threshold: *t,
                        always_inline_single_call_site: *single,
                        inline_across_func_constant: *across,
                    },
                    am,
                )
                .inlined_count;
            });
            n as u64
        }
        Step::ScfToCf => {
            trunk_ir::transforms::scf_to_cf::lower_scf_to_cf(ctx, m);
            1
        }
        Step::ScfToCfPass => {
            let mut pm = PassManager::new();
            pm.nest::<trunk_ir::dialect::func::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
            pm.run(ctx, cm).map_err(|e| e.to_string())?;
            1
        }
        Step::Cleanup => {
            trunk_ir::transforms::global_dce::eliminate_dead_functions(ctx, m);
            let mut pm = PassManager::new();
            pm.nest::<trunk_ir::dialect::func::Func>()
                .add_pass(canonicalize_pass())
                .add_pass(dce_pass(DceConfig::default()));
            pm.run(ctx, cm).map_err(|e| e.to_string())?;
            1
        }
    })
}

pub fn step_name(s: &Step) -> &'static str {
    match s {
        Step::Canon => "canonicalize",
        Step::CanonPass => "canonicalize-pass",
        Step::Dce => "dce",
        Step::DcePass => "dce-pass",
        Step::GlobalDce(_) => "global-dce",
        Step::Inline(..) => "inline",
        Step::ScfToCf => "scf-to-cf",
        Step::ScfToCfPass => "scf-to-cf-pass",
        Step::Cleanup => "cleanup",
    }
}

pub fn any_step(r: &mut Rng) -> Step {
    match r.below(5) {
        0 => Step::ScfToCf,
        _ => opt_step(r),
    }
}

fn opt_step(r: &mut Rng) -> Step {
    match r.below(9) {
        0 => Step::Canon,
        1 => Step::CanonPass,
        2 => Step::Dce,
        3 => Step::DcePass,
        4 => Step::GlobalDce((0..if r.chance(50) { 0 } else { 1 + r.below(2) }).map(|_| format!("f{}", r.below(6))).collect()),
        5 => Step::Cleanup,
        _ => Step::Inline(*r.pick(&[0, 4, 16, 16, 60, 1000]), r.chance(70), r.chance(30)),
    }
}

/// functions that `@main`, `_start`, exports and ABI functions can reach by name
pub fn reachable_functions(ctx: &IrContext, m: OpRef, extra: &[String]) -> (BTreeSet<String>, BTreeSet<String>) {
    let mut funcs: Vec<(String, OpRef)> = vec![];
    let mut roots: Vec<String> = extra.to_vec();
    let mut mods = vec![m];
    while let Some(m) = mods.pop() {
    for &r in &ctx.op(m).regions {
        for &b in &ctx.region(r).blocks {
            for &op in &ctx.block(b).ops {
                let d = ctx.op(op);
                if d.dialect == Symbol::new("func") && d.name == Symbol::new("func") {
                    let n = d.attributes.get_symbol("sym_name").unwrap().to_string();
                    if n == "main" || n == "_start" || d.attributes.contains_key("abi") {
                        roots.push(n.clone());
                    }
                    funcs.push((n, op));
                } else if d.dialect == Symbol::new("wasm")
                    && d.name == Symbol::new("export_func")
                    && let Some(f) = d.attributes.get_symbol("func")
                {
                    roots.push(f.to_string());
                } else if d.dialect == Symbol::new("core") && d.name == Symbol::new("module") {
                    mods.push(op);
                }
            }
        }
    }
    }
    let map: std::collections::HashMap<&str, OpRef> = funcs.iter().map(|(n, o)| (n.as_str(), *o)).collect();
    let mut seen = BTreeSet::new();
    while let Some(f) = roots.pop() {
        if !seen.insert(f.clone()) {
            continue;
        }
        let Some(&op) = map.get(f.as_str()) else { continue };
        let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
        integrity::collect(ctx, op, &mut t, &mut vec![]);
        for o in t.ops {
            for k in ["callee", "func_ref"] {
                if let Some(s) = ctx.op(o).attributes.get_symbol(k) {
                    roots.push(s.to_string());
                }
            }
        }
    }
    (funcs.into_iter().map(|(n, _)| n).collect(), seen)
}

pub fn count_ops(ctx: &IrContext, root: OpRef, dialect: &str) -> usize {
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(ctx, root, &mut t, &mut vec![]);
    t.ops.iter().filter(|o| ctx.op(**o).dialect == Symbol::from_dynamic(dialect)).count()
}

/// A run is acceptable after an optimisation when it is identical, or when the original
/// trapped in a side-effect-free operation (which may be dead) and the new trace extends it.
pub fn acceptable(before: &interp::RunInfo, after: &interp::RunInfo) -> bool {
    if before.obs == after.obs {
        return true;
    }
    before.pure_trap && after.obs.events.len() >= before.obs.events.len()
        && after.obs.events[..before.obs.events.len()] == before.obs.events[..]
        && !matches!(after.stop, Some(Stop::Bad(_)))
}

pub fn diff(before: &interp::RunInfo, after: &interp::RunInfo) -> String {
    let n = before.obs.events.iter().zip(&after.obs.events).take_while(|(a, b)| a == b).count();
    format!(
        "at event {n}: before {:?} end {}; after {:?} end {}",
        before.obs.events.get(n), before.obs.end, after.obs.events.get(n), after.obs.end
    )
}

/// Apply `steps` in turn, comparing the observable behaviour after each.
pub fn check_steps(c: &mut Case, text: &str, inputs: &[Vec<u64>], steps: &[Step]) {
    c.input(format!("; steps {steps:?}\n; inputs {inputs:?}\n{text}"));
    let mut ctx = IrContext::new();
    let op = match parse_module(&mut ctx, text) {
        Ok(o) => o,
        Err(e) => panic!("harness: generated module does not parse: {e:?}"),
    };
    let m = Module::new(&ctx, op).unwrap();
    let before: Vec<_> = inputs.iter().map(|i| interp::run_main(&ctx, op, "main", i, FUEL)).collect();
    for b in &before {
        match &b.stop {
            Some(Stop::Bad(e)) => panic!("harness: generated program has no meaning: {e}"),
            Some(Stop::Fuel) => {
                c.skip("fuel");
                return;
            }
            _ => {}
        }
        if b.unspec {
            c.skip("unspecified remainder");
            return;
        }
    }
    let mut changed_total = 0;
    for (k, s) in steps.iter().enumerate() {
        let name = step_name(s);
        let reach = if let Step::GlobalDce(x) = s { Some(reachable_functions(&ctx, op, x)) } else { None };
        let n = match apply(&mut ctx, m, s) {
            Ok(n) => n,
            Err(e) => {
                c.violation(format!("{name} (step {k}) failed: {e}"));
                return;
            }
        };
        changed_total += n;
        c.st.count(&format!("changes[{name}]"), n);
        c.st.count(&format!("runs[{name}]"), 1);
        let mut errs = integrity::check_all(&ctx, op);
        errs.extend(integrity::check_bools(&ctx, op));
        if !errs.is_empty() {
            c.violation(format!("{name} (step {k}) left a broken module: {}", errs[..errs.len().min(3)].join("; ")));
            return;
        }
        if let Some((all, keep)) = reach {
            let (now, _) = reachable_functions(&ctx, op, &[]);
            let want: BTreeSet<String> = all.intersection(&keep).cloned().collect();
            if !now.is_superset(&want) || !now.is_subset(&all) {
                c.violation(format!("global-dce kept {now:?}, but {want:?} are reachable"));
                return;
            }
            c.st.count("functions removed as unreachable", (all.len() - now.len()) as u64);
        }
        if matches!(s, Step::ScfToCf | Step::ScfToCfPass) {
            let left = count_ops(&ctx, op, "scf");
            if left != 0 {
                c.violation(format!("{name} left {left} structured operations behind"));
                return;
            }
        }
        for (i, b) in before.iter().enumerate() {
            let a = interp::run_main(&ctx, op, "main", &inputs[i], FUEL * 4);
            c.st.count("executions compared", 1);
            c.st.count("events compared", a.obs.events.len() as u64);
            if !acceptable(b, &a) {
                c.violation(format!("{name} (step {k}) changed behaviour on input {i}: {}", diff(b, &a)));
                return;
            }
        }
    }
    if changed_total > 0 && before.iter().any(|b| !b.obs.events.is_empty()) {
        c.distinct(text);
    }
    c.sample(|| format!("steps {steps:?}\ninputs {:?}\n{text}", inputs[0]));
}

fn boundary(r: &mut Rng, w: u32) -> i64 {
    let (min, max) = if w == 64 { (i64::MIN, i64::MAX) } else { (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1) };
    match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 => -1,
        4 => min,
        5 => max,
        6 => min + 1,
        7 => max - 1,
        8 => 2,
        9 => 1i64 << r.below(w as usize - 1),
        10 => r.range(-9, 9),
        _ => (r.u64() as i64) >> (64 - w),
    }
}

/// One operation on boundary operands, as constants and as runtime values.
fn fold_program(r: &mut Rng) -> (String, Vec<u64>) {
    let w = *r.pick(&[1u32, 8, 16, 32, 32, 64]);
    let t = format!("i{w}");
    let mut body = String::new();
    let n = 1 + r.below(4);
    let mut inputs = vec![0u64; 16];
    let mut vals: Vec<String> = vec![];
    for (i, slot) in inputs.iter_mut().enumerate().take(4) {
        let b = if w == 1 { r.below(2) as i64 } else { boundary(r, w) };
        *slot = b as u64;
        body.push_str(&format!("    %k{i} = arith.const {{value = {i}}} : core.i32\n"));
        body.push_str(&format!("    %in{i} = func.call %k{i} {{callee = @v_in_{t}}} : core.{t}\n"));
        vals.push(format!("%in{i}"));
    }
    for i in 0..4 {
        let b = if w == 1 { r.below(2) as i64 } else { boundary(r, w) };
        body.push_str(&format!("    %c{i} = arith.const {{value = {b}}} : core.{t}\n"));
        vals.push(format!("%c{i}"));
        vals.push(format!("%c{i}"));
    }
    for i in 0..n {
        let op = if w == 1 { *r.pick(&["and", "or", "xor", "and", "or", "xor", "if"]) } else { *r.pick(&[
            "addi", "subi", "muli", "divsi", "divui", "remsi", "remui", "and", "or", "xor", "shl", "shr", "shru", "cmpi",
            "negi", "if",
        ]) };
        let a = r.pick(&vals).clone();
        let b = r.pick(&vals).clone();
        match op {
            "cmpi" => {
                let p = *r.pick(&["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]);
                body.push_str(&format!("    %r{i} = arith.cmpi {a}, {b} {{predicate = @{p}}} : core.i1\n"));
                body.push_str(&format!("    %n{i} = func.call %r{i} {{callee = @v_rec_i1}} : core.nil\n"));
            }
            "negi" => {
                body.push_str(&format!("    %r{i} = arith.negi {a} : core.{t}\n"));
                body.push_str(&format!("    %n{i} = func.call %r{i} {{callee = @v_rec_{t}}} : core.nil\n"));
                vals.push(format!("%r{i}"));
            }
            "if" => {
                let bv = *r.pick(&["true", "false", "0", "1"]);
                body.push_str(&format!("    %b{i} = arith.const {{value = {bv}}} : core.i1\n"));
                body.push_str(&format!("    %r{i} = scf.if %b{i} : core.{t} {{\n      %n{i}t = func.call {a} {{callee = @v_rec_{t}}} : core.nil\n      scf.yield {a}\n    }} {{\n      %n{i}e = func.call {b} {{callee = @v_rec_{t}}} : core.nil\n      scf.yield {b}\n    }}\n"));
                vals.push(format!("%r{i}"));
            }
            op => {
                body.push_str(&format!("    %r{i} = arith.{op} {a}, {b} : core.{t}\n"));
                body.push_str(&format!("    %n{i} = func.call %r{i} {{callee = @v_rec_{t}}} : core.nil\n"));
                vals.push(format!("%r{i}"));
            }
        }
    }
    let mut s = String::from("core.module @fold {\n");
    for x in [t.as_str(), "i1"] {
        s.push_str(&format!("  func.func @v_in_{x}(%0: core.i32) -> core.{x} attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}\n  func.func @v_rec_{x}(%0: core.{x}) -> core.nil attributes {{abi = \"C\"}} {{\n    func.unreachable\n  }}\n"));
    }
    s.push_str("  func.func @main() -> core.nil {\n");
    s.push_str(&body);
    s.push_str("    %u = arith.const {value = unit} : core.nil\n    func.return %u\n  }\n}\n");
    (s, inputs)
}

/// Modules nested in modules, functions known by qualified names, exports, foreign functions and
/// extra entry points: what can be reached stays, what goes is reported.
fn dce_case(c: &mut Case) {
    use trunk_ir::transforms::global_dce::*;
    use trunk_ir::types::Attribute;
    let r = &mut c.rng;
    let nmods = 1 + r.below(5);
    // parent of each module, and whether it contributes to names
    let parent: Vec<Option<usize>> = (0..nmods).map(|i| if i == 0 { None } else { Some(r.below(i)) }).collect();
    let named: Vec<bool> = (0..nmods).map(|i| i > 0 && r.chance(70)).collect();
    let qual = |m: usize, f: &str| -> String {
        let mut segs = vec![f.to_string()];
        let mut m = Some(m);
        while let Some(i) = m {
            if named[i] {
                segs.insert(0, format!("m{i}"));
            }
            m = parent[i];
        }
        segs.join("::")
    };
    let nf = 2 + r.below(9);
    let mut funcs: Vec<(usize, String, String, bool)> = vec![]; // module, base, qualified, abi
    for i in 0..nf {
        let m = r.below(nmods);
        let base = match r.below(10) {
            0 if i > 0 => "main".to_string(),
            1 => "_start".to_string(),
            _ => format!("f{i}"),
        };
        let q = qual(m, &base);
        if funcs.iter().any(|f| f.2 == q) {
            continue;
        }
        let abi = r.chance(8);
        funcs.push((m, base, q, abi));
    }
    let names: Vec<String> = funcs.iter().map(|f| f.2.clone()).collect();
    let mut edges: Vec<Vec<usize>> = vec![];
    let mut bodies: Vec<String> = vec![];
    for _ in 0..funcs.len() {
        let mut e = vec![];
        let mut b = String::new();
        let k = *r.pick(&[0, 1, 1, 2, 3, 6]);
        let mut tail = None;
        let blocks = r.chance(40);
        for j in 0..k {
            let t = r.below(names.len());
            e.push(t);
            let q = format!("@\"{}\"", names[t]);
            match r.below(5) {
                0 => b.push_str(&format!("    %c{j} = func.constant {{func_ref = {q}}} : core.func(core.nil)\n")),
                1 => b.push_str(&format!("    %t{j} = arith.const {{value = true}} : core.i1\n    %i{j} = scf.if %t{j} : core.nil {{\n      %n{j} = func.call {{callee = {q}}} : core.nil\n      scf.yield %n{j}\n    }} {{\n      %e{j} = func.constant {{func_ref = {q}}} : core.func(core.nil)\n      %u{j} = arith.const {{value = unit}} : core.nil\n      scf.yield %u{j}\n    }}\n")),
                2 if j + 1 == k => tail = Some(q),
                _ => b.push_str(&format!("    %n{j} = func.call {{callee = {q}}} : core.nil\n")),
            }
            if blocks && j + 1 < k && r.chance(50) {
                b.push_str(&format!("    cf.br [^bb{}]\n  ^bb{}:\n", j + 1, j + 1));
            }
        }
        match tail {
            Some(q) => b.push_str(&format!("    func.tail_call {{callee = {q}}}\n")),
            None => b.push_str("    %u = arith.const {value = unit} : core.nil\n    func.return %u\n"),
        }
        if b.contains("^bb") {
            b.insert_str(0, "  ^bb0:\n");
        }
        edges.push(e);
        bodies.push(b);
    }
    let mut exports: Vec<(usize, usize)> = vec![];
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) {
        exports.push((r.below(nmods), r.below(names.len())));
    }
    let mut extra: Vec<String> = vec![];
    for _ in 0..*r.pick(&[0, 0, 1, 2]) {
        let f = r.pick(&funcs);
        extra.push(if r.chance(50) { f.1.clone() } else { f.2.clone() });
    }
    fn emit(m: usize, parent: &[Option<usize>], funcs: &[(usize, String, String, bool)], bodies: &[String], exports: &[(usize, usize)], names: &[String], s: &mut String) {
        s.push_str(&format!("core.module @mod{m} {{\n"));
        for (i, f) in funcs.iter().enumerate() {
            if f.0 == m {
                let a = if f.3 { " attributes {abi = \"C\"}" } else { "" };
                s.push_str(&format!("  func.func @\"{}\"() -> core.nil{a} {{\n{}  }}\n", f.1, bodies[i]));
            }
            // modules stand between functions
            if i % 3 == m % 3 {
                for (k, p) in parent.iter().enumerate() {
                    if *p == Some(m) && k % funcs.len() == i {
                        emit(k, parent, funcs, bodies, exports, names, s);
                    }
                }
            }
        }
        for (k, p) in parent.iter().enumerate() {
            let placed = (0..funcs.len()).any(|i| i % 3 == m % 3 && k % funcs.len() == i);
            if *p == Some(m) && !placed {
                emit(k, parent, funcs, bodies, exports, names, s);
            }
        }
        for e in exports {
            if e.0 == m {
                s.push_str(&format!("  wasm.export_func {{name = \"x\", func = @\"{}\"}}\n", names[e.1]));
            }
        }
        s.push_str("}\n");
    }
    let mut text = String::new();
    emit(0, &parent, &funcs, &bodies, &exports, &names, &mut text);
    c.input(format!("; named modules {named:?}, extra entry points {extra:?}\n{text}"));
    let mut ctx = IrContext::new();
    let op = parse_module(&mut ctx, &text).unwrap_or_else(|e| panic!("harness: generated module does not parse: {e:?}"));
    let mut t = integrity::Tree { ops: vec![], blocks: vec![], regions: vec![] };
    integrity::collect(&ctx, op, &mut t, &mut vec![]);
    for o in t.ops {
        if ctx.op(o).dialect == Symbol::new("core") && ctx.op(o).name == Symbol::new("module") {
            let n = ctx.op(o).attributes.get_symbol("sym_name").unwrap().to_string();
            let i: usize = n.trim_start_matches("mod").parse().unwrap();
            if named[i] {
                ctx.op_mut(o).attributes.insert(Symbol::new("name"), Attribute::Symbol(Symbol::from_dynamic(&format!("m{i}"))));
            }
        }
    }
    // what is reachable
    let mut seen = vec![false; funcs.len()];
    let mut work: Vec<usize> = vec![];
    for (i, f) in funcs.iter().enumerate() {
        if f.1 == "main" || f.1 == "_start" || f.3 || exports.iter().any(|e| e.1 == i) || extra.iter().any(|x| *x == f.1 || *x == f.2) {
            work.push(i);
        }
    }
    while let Some(i) = work.pop() {
        if !seen[i] {
            seen[i] = true;
            work.extend(&edges[i]);
        }
    }
    let m = Module::new(&ctx, op).unwrap();
    let ops_of = |ctx: &IrContext| -> Vec<(usize, String)> {
        let mut out = vec![];
        let mut mods = vec![op];
        while let Some(mo) = mods.pop() {
            let mi: usize = ctx.op(mo).attributes.get_symbol("sym_name").unwrap().to_string().trim_start_matches("mod").parse().unwrap();
            for &rg in &ctx.op(mo).regions {
                for &b in &ctx.region(rg).blocks {
                    for &o in &ctx.block(b).ops {
                        let d = ctx.op(o);
                        if d.dialect == Symbol::new("core") && d.name == Symbol::new("module") {
                            mods.push(o);
                        } else if d.dialect == Symbol::new("func") {
                            out.push((mi, d.attributes.get_symbol("sym_name").unwrap().to_string()));
                        }
                    }
                }
            }
        }
        out.sort();
        out
    };
    let res = eliminate_dead_functions_with_config(&mut ctx, m, GlobalDceConfig { extra_entry_points: extra.clone(), ..Default::default() });
    let left = ops_of(&ctx);
    let mut gone = vec![];
    for (i, f) in funcs.iter().enumerate() {
        let there = left.contains(&(f.0, f.1.clone()));
        if seen[i] && !there {
            c.violation(format!("function {} is reachable from an entry point and was removed", f.2));
            return;
        }
        if !there {
            gone.push(f.2.clone());
        }
    }
    let mut rep: Vec<String> = res.removed_functions.iter().map(|s| s.to_string()).collect();
    rep.sort();
    gone.sort();
    if rep != gone || res.removed_count != gone.len() {
        c.violation(format!("reported as removed {rep:?} ({}), actually gone {gone:?}", res.removed_count));
        return;
    }
    let errs = integrity::check_all(&ctx, op);
    if !errs.is_empty() {
        c.violation(format!("global-dce left a broken module: {}", errs[..errs.len().min(3)].join("; ")));
        return;
    }
    c.st.count("functions kept", left.len() as u64);
    c.st.count("functions removed as unreachable", gone.len() as u64);
    if !gone.is_empty() && !left.is_empty() {
        c.distinct(&text);
    }
}

pub fn check_opt(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "programs", cfg.n(6000, 120_000), |c| {
        let mut f = Features::opt();
        if c.rng.chance(25) {
            f.funcs = 12;
        }
        if c.rng.chance(20) {
            f.traps = true;
        }
        f.nested = c.rng.chance(20);
        if c.rng.chance(30) {
            f.loops = progen::Loops::No;
            f.switch = false;
        }
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..2).map(|_| progen::inputs(&mut c.rng)).collect();
        let n = 1 + c.rng.below(5);
        let mut steps: Vec<Step> = (0..n).map(|_| opt_step(&mut c.rng)).collect();
        if c.rng.chance(10) {
            // optimisations also run over control-flow graphs
            steps.insert(0, Step::ScfToCf);
        }
        check_steps(c, &text, &inputs, &steps);
    });
    st.merge(run_cases(cfg, "folds", cfg.n(20_000, 400_000), |c| {
        let (text, inputs) = fold_program(&mut c.rng);
        let steps = if c.rng.chance(50) { vec![Step::Canon] } else { vec![Step::CanonPass, Step::DcePass] };
        // every result here is recorded, so even a trap must be preserved exactly
        let before = {
            let mut ctx = IrContext::new();
            let op = parse_module(&mut ctx, &text).unwrap_or_else(|e| panic!("harness: {e:?}"));
            interp::run_main(&ctx, op, "main", &inputs, FUEL)
        };
        check_steps(c, &text, &[inputs.clone()], &steps);
        if before.pure_trap && !before.unspec {
            c.st.count("trapping folds", 1);
            let mut ctx = IrContext::new();
            let op = parse_module(&mut ctx, &text).unwrap();
            let m = Module::new(&ctx, op).unwrap();
            for s in &steps {
                let _ = apply(&mut ctx, m, s);
            }
            let after = interp::run_main(&ctx, op, "main", &inputs, FUEL);
            if !after.pure_trap {
                c.violation(format!("a used trapping operation no longer traps: {}", diff(&before, &after)));
            }
        }
    }));
    st.merge(run_cases(cfg, "symbols", cfg.n(6000, 100_000), dce_case));
    st.rules.push("random whole programs (arith, scf, calls, ADTs, boxing, host effects) executed by the reference interpreter before and after random sequences of the real optimisation passes; non-trivial = some pass changed the module and the program produced host events. Second stage: single operations on boundary constants.".into());
    let _: HashSet<u8> = HashSet::new();
    st
}

pub fn check_scf(cfg: &Cfg) -> Stats {
    let mut st = run_cases(cfg, "scf", cfg.n(9000, 150_000), |c| {
        let mut f = Features::opt();
        f.const_heavy = false;
        f.depth = 3 + c.rng.below(3) as u32;
        f.funcs = 1 + c.rng.below(4);
        f.stmts = 6 + c.rng.below(4);
        f.adt = c.rng.chance(40);
        f.boxing = f.adt;
        f.cf_bias = true;
        let text = Gen::new(&mut c.rng, f).module();
        let inputs: Vec<Vec<u64>> = (0..3).map(|_| progen::inputs(&mut c.rng)).collect();
        let mut steps = vec![if c.rng.chance(50) { Step::ScfToCf } else { Step::ScfToCfPass }];
        if c.rng.chance(30) {
            steps.insert(0, Step::Cleanup);
        }
        check_steps(c, &text, &inputs, &steps);
    });
    st.rules.push("random programs with deeply nested if/switch/loop/break/continue executed by the reference interpreter before and after lowering to branches; non-trivial = lowering happened and host events were produced.".into());
    st
}
